#include "seam.h"

#include <pthread.h>
#include <sys/mman.h>
#include <semaphore.h>
#include <malloc.h>
#include <unistd.h>

#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <new>
#include <streambuf>

#include "rng.h"

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
}

namespace seam {
namespace {

void (*g_verdict)(const std::string&, const std::string&) = nullptr;

// ------------------------------------------------------------- allocator
constexpr uint64_t kMagicLive = 0x51A110C8D06F00D5ull;
constexpr uint64_t kMagicDead = 0xDEADDEADDEADDEADull;
constexpr size_t kRed = 64;
struct Header {
  uint64_t magic;
  size_t size;
  uint64_t seq;
  uint32_t sut;   // bit 0: belongs to the code under test, bit 1: guarded mapping
  uint32_t off;   // distance from real block start to the user pointer
  Header* prev;
  Header* next;
  uint64_t red[2];
};
static_assert(sizeof(Header) % 16 == 0, "alignment");

std::atomic<uint64_t> g_seq{1};
bool g_guard = false;
long g_guarded_blocks = 0;
struct Quarantine {
  void* p;
  size_t n;
} g_quarantine[256];
int g_q = 0;
int g_fill = -1, g_free_fill = -1, g_stack_fill = -1;
uint64_t g_fill_seed = 1;
long g_alloc_counter = 0;
long g_fail_first = -1, g_fail_count = 0, g_fail_fired = 0;
std::atomic<long> g_live_blocks{0}, g_live_bytes{0};
Header g_head = {};  // circular list of live SUT blocks
pthread_mutex_t g_list_mu = PTHREAD_MUTEX_INITIALIZER;
thread_local int t_sut = 0;
constexpr uint64_t kRedA = 0xA5A5A5A55A5A5A5Aull;

void FillBytes(unsigned char* p, size_t n, int fill, uint64_t seed) {
  switch (fill) {
    case -1:
      return;
    case kFillZero:
      memset(p, 0, n);
      return;
    case kFillNaN:
      memset(p, 0xFF, n);
      return;
    default:
      break;
  }
  uint64_t s = sim::Mix(seed);
  for (size_t i = 0; i < n; i += 8) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    double u = (double)(s >> 11) * (1.0 / 9007199254740992.0);
    uint64_t bits;
    double d;
    switch (fill) {
      case kFillHuge:
        d = (u - 0.5) * 1e100;
        memcpy(&bits, &d, 8);
        break;
      case kFillUnit:
        d = (u - 0.5) * 4;
        memcpy(&bits, &d, 8);
        break;
      case kFillTiny:
        d = u * 1e-300;
        memcpy(&bits, &d, 8);
        break;
      default:
        bits = sim::Mix(s);
    }
    size_t k = n - i < 8 ? n - i : 8;
    memcpy(p + i, &bits, k);
  }
}

void Link(Header* h) {
  __real_pthread_mutex_lock(&g_list_mu);
  if (!g_head.next) g_head.next = g_head.prev = &g_head;
  h->next = g_head.next;
  h->prev = &g_head;
  g_head.next->prev = h;
  g_head.next = h;
  pthread_mutex_unlock(&g_list_mu);
}
void Unlink(Header* h) {
  __real_pthread_mutex_lock(&g_list_mu);
  h->prev->next = h->next;
  h->next->prev = h->prev;
  pthread_mutex_unlock(&g_list_mu);
}

bool RedOk(const Header* h) {
  if (h->red[0] != kRedA || h->red[1] != kRedA) return false;
  const unsigned char* tail = reinterpret_cast<const unsigned char*>(h + 1) + h->size;
  size_t red = h->sut & 2 ? (16 - h->size % 16) % 16 : kRed;
  for (size_t i = 0; i < red; i++)
    if (tail[i] != 0x5C) return false;
  return true;
}

void* Allocate(size_t size, size_t align, bool* injected) {
  bool sut = t_sut > 0;
  *injected = false;
  if (sut) {
    g_alloc_counter++;
    if (g_fail_first > 0 && g_alloc_counter >= g_fail_first &&
        g_alloc_counter < g_fail_first + g_fail_count) {
      g_fail_fired++;
      *injected = true;
      return nullptr;
    }
  }
  if (size > (size_t)1 << 40) {
    *injected = true;
    return nullptr;
  }
  if (align < 16) align = 16;
  uintptr_t user = 0;
  char* raw = nullptr;
  size_t red = kRed;
  // Guard pages are slow: dense at first, then a sample.
  if (sut && g_guard && align == 16 &&
      sim::Mix2(g_fill_seed, (uint64_t)g_alloc_counter) % (g_guarded_blocks < 3000 ? 2 : 256) == 0) {
    // The block ends (up to 16-byte rounding) at an inaccessible page.
    size_t rounded = (size + 15) / 16 * 16;
    size_t len = (rounded + sizeof(Header) + 4095) / 4096 * 4096;
    raw = static_cast<char*>(
        mmap(nullptr, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (raw != MAP_FAILED && mprotect(raw + len, 4096, PROT_NONE) == 0) {
      user = reinterpret_cast<uintptr_t>(raw) + len - rounded;
      red = rounded - size;
      g_guarded_blocks++;
    } else {
      raw = nullptr;
    }
  }
  bool guarded = raw != nullptr;
  if (!guarded) {
    size_t total = size + sizeof(Header) + kRed + align;
    raw = static_cast<char*>(__real_malloc(total));
    if (!raw) return nullptr;
    user = reinterpret_cast<uintptr_t>(raw) + sizeof(Header);
    user = (user + align - 1) / align * align;
  }
  Header* h = reinterpret_cast<Header*>(user) - 1;
  h->magic = kMagicLive;
  h->size = size;
  h->seq = g_seq++;
  h->sut = (sut ? 1u : 0u) | (guarded ? 2u : 0u);
  h->off = (uint32_t)(user - reinterpret_cast<uintptr_t>(raw));
  h->red[0] = h->red[1] = kRedA;
  unsigned char* p = reinterpret_cast<unsigned char*>(user);
  if (sut) {
    // Content depends on the position in the allocation sequence only.
    FillBytes(p, size, g_fill, sim::Mix2(g_fill_seed, (uint64_t)g_alloc_counter));
    Link(h);
    g_live_blocks++;
    g_live_bytes += (long)size;
  }
  memset(p + size, 0x5C, red);
  return p;
}

void Release(void* p) {
  if (!p) return;
  Header* h = static_cast<Header*>(p) - 1;
  if (h->magic != kMagicLive) {
    if (h->magic == kMagicDead) Verdict("HEAP", "double free");
    __real_free(p);  // not ours (allocated inside a system library)
    return;
  }
  if (!RedOk(h)) Verdict("HEAP", "write outside a heap block, found at free");
  if (h->sut & 1) {
    Unlink(h);
    g_live_blocks--;
    g_live_bytes -= (long)h->size;
  }
  if (h->sut & 2) {
    char* base = static_cast<char*>(p) - h->off;
    size_t len = h->off + (h->size + 15) / 16 * 16 + 4096;
    mprotect(base, len, PROT_NONE);
    Quarantine& q = g_quarantine[g_q++ % 256];
    if (q.p) munmap(q.p, q.n);
    q.p = base;
    q.n = len;
    return;
  }
  h->magic = kMagicDead;
  if (h->sut) FillBytes(static_cast<unsigned char*>(p), h->size, g_free_fill, h->seq);
  char* raw = static_cast<char*>(p) - h->off;
  h->magic = 0;
  h->magic = kMagicDead;
  __real_free(raw);
}

size_t UserSize(void* p) { return (static_cast<Header*>(p) - 1)->size; }

// ------------------------------------------------------------------ rand
thread_local uint64_t t_rand_state = 12345;
int g_rand_mode = 0;
long g_rand_draws = 0;

// --------------------------------------------------------------- streams
const bool g_echo = getenv("SIM_ECHO") != nullptr;  // debugging aid
class SimBuf : public std::streambuf {
 public:
  StreamCfg cfg;
  long bytes = 0;
  long failures = 0;
  sim::Hash hash;

 protected:
  bool Failing() {
    bool bad = cfg.initially_bad || (cfg.fail_after >= 0 && bytes >= cfg.fail_after);
    if (bad && cfg.heal_after >= 0 && failures >= cfg.heal_after) bad = false;
    if (bad) failures++;
    return bad;
  }
  int overflow(int c) override {
    if (Failing()) return EOF;
    char ch = (char)c;
    if (g_echo) (void)!write(2, &ch, 1);
    hash.Bytes(&ch, 1);
    bytes++;
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (Failing()) return 0;
    if (g_echo) (void)!write(2, s, (size_t)n);
    hash.Bytes(s, (size_t)n);
    bytes += n;
    return n;
  }
  int sync() override { return Failing() ? -1 : 0; }
};
SimBuf* g_out = nullptr;
SimBuf* g_err = nullptr;

// ----------------------------------------------------------------- steps
bool g_active = false;
uint64_t g_steps = 0;
uint64_t g_next = ~0ull;
uint64_t g_budget = ~0ull;
uint64_t g_at = ~0ull;
std::function<void()>* g_at_fn = nullptr;
unsigned char g_cov_local[1 << 16];
unsigned char* g_cov = g_cov_local;

// --------------------------------------------------------------- threads
struct Th {
  sem_t sem;
  bool done = false;
  int guard = 0;
};
std::vector<Th*> g_threads;
thread_local int t_self = -1;
const std::vector<SchedEntry>* g_sched = nullptr;
size_t g_pos = 0;
uint64_t g_slice_end = ~0ull;
long g_preempt = 0;
sim::Hash g_ihash;
sem_t g_main_sem;

void Recompute() {
  g_next = g_budget;
  if (g_at < g_next) g_next = g_at;
  if (t_self >= 0 && g_slice_end < g_next) g_next = g_slice_end;
}

// Picks the next thread to run. Consumes schedule entries.
int PickNext() {
  while (g_sched && g_pos < g_sched->size()) {
    const SchedEntry& e = (*g_sched)[g_pos++];
    if (e.thread < 0 || e.thread >= (int)g_threads.size()) continue;
    if (g_threads[e.thread]->done) continue;
    g_slice_end = g_steps + (e.delta ? e.delta : 1);
    return e.thread;
  }
  g_slice_end = ~0ull;
  for (size_t i = 0; i < g_threads.size(); i++)
    if (!g_threads[i]->done) return (int)i;
  return -1;
}

void SwitchTo(int next) {
  int self = t_self;
  g_ihash.U64((uint64_t)next);
  g_ihash.U64(g_steps);
  if (next == self) {
    Recompute();
    return;
  }
  g_preempt++;
  g_next = g_budget < g_at ? g_budget : g_at;
  if (g_slice_end < g_next) g_next = g_slice_end;
  sem_post(&g_threads[next]->sem);
  while (sem_wait(&g_threads[self]->sem) != 0) {
  }
}

void Slow() {
  if (g_steps >= g_budget) {
    g_budget = ~0ull;
    Verdict("HANG", "step budget exceeded");
  }
  if (g_steps >= g_at) {
    g_at = ~0ull;
    auto* fn = g_at_fn;
    g_at_fn = nullptr;
    Recompute();
    if (fn) {
      bool was = g_active;
      g_active = false;
      NoSut ns;
      (*fn)();
      delete fn;
      g_active = was;
    }
  }
  if (t_self >= 0 && g_steps >= g_slice_end) {
    if (g_threads[t_self]->guard > 0) {
      g_slice_end = g_steps + 64;
    } else {
      int next = PickNext();
      if (next >= 0) SwitchTo(next);
    }
  }
  Recompute();
}

struct Start {
  int index;
  const std::function<void()>* body;
};
void* ThreadMain(void* arg) {
  Start* s = static_cast<Start*>(arg);
  t_self = s->index;
  Th* me = g_threads[s->index];
  while (sem_wait(&me->sem) != 0) {
  }
  Recompute();
  (*s->body)();
  me->done = true;
  int next = PickNext();
  int self = t_self;
  (void)self;
  if (next >= 0) {
    g_ihash.U64((uint64_t)next);
    g_ihash.U64(g_steps);
    g_next = g_budget < g_at ? g_budget : g_at;
    if (g_slice_end < g_next) g_next = g_slice_end;
    sem_post(&g_threads[next]->sem);
  } else {
    sem_post(&g_main_sem);
  }
  return nullptr;
}

}  // namespace

void Verdict(const std::string& kind, const std::string& msg) {
  if (g_verdict) g_verdict(kind, msg);
  fprintf(stderr, "VERDICT %s %s\n", kind.c_str(), msg.c_str());
  _exit(77);
}
void SetVerdictHandler(void (*fn)(const std::string&, const std::string&)) {
  g_verdict = fn;
}

void SetFill(int a, int f, uint64_t seed) {
  g_fill = a;
  g_free_fill = f;
  g_fill_seed = seed;
}
void SetStackFill(int fill) { g_stack_fill = fill; }
void SetGuard(bool on) { g_guard = on; }
long GuardedBlocks() { return g_guarded_blocks; }
Sut::Sut() { t_sut++; }
Sut::~Sut() { t_sut--; }
NoSut::NoSut() : saved(t_sut) { t_sut = 0; }
NoSut::~NoSut() { t_sut = saved; }
void ResetAllocCounter() { g_alloc_counter = 0; }
long AllocCounter() { return g_alloc_counter; }
void FailAllocAt(long first, long count) {
  g_fail_first = first;
  g_fail_count = count;
  g_fail_fired = 0;
}
void ClearAllocFailure() {
  g_fail_first = -1;
  g_fail_count = 0;
}
long AllocFailuresFired() { return g_fail_fired; }
long LiveSutBlocks() { return g_live_blocks; }
long LiveSutBytes() { return g_live_bytes; }
bool HeapIntact(std::string* why) {
  if (!g_head.next) return true;
  for (Header* h = g_head.next; h != &g_head; h = h->next) {
    if (h->magic != kMagicLive || !RedOk(h)) {
      if (why) *why = "write outside a heap block";
      return false;
    }
  }
  return true;
}

__attribute__((noinline)) static void ScribbleImpl(int fill, uint64_t seed) {
  unsigned char buf[96 * 1024];
  FillBytes(buf, sizeof buf, fill, seed);
  asm volatile("" : : "r"(buf) : "memory");
}
void ScribbleStack() {
  if (g_stack_fill >= 0) ScribbleImpl(g_stack_fill, g_fill_seed ^ 0x57ac4);
}

void SeedRand(uint64_t seed) { t_rand_state = sim::Mix(seed); }
void SetRandMode(int mode) { g_rand_mode = mode; }
long RandDraws() { return g_rand_draws; }

void InstallStreams(const StreamCfg& out, const StreamCfg& err) {
  if (!g_out) {
    g_out = new SimBuf;
    g_err = new SimBuf;
  }
  g_out->cfg = out;
  g_err->cfg = err;
  std::cout.rdbuf(g_out);
  std::cerr.rdbuf(g_err);
  std::clog.rdbuf(g_err);
}
long OutBytes() { return g_out ? g_out->bytes : 0; }
long ErrBytes() { return g_err ? g_err->bytes : 0; }
long StreamFailures() { return (g_out ? g_out->failures : 0) + (g_err ? g_err->failures : 0); }
uint64_t OutHash() { return g_out ? g_out->hash.h : 0; }
void ResetOutHash() {
  if (g_out) g_out->hash = sim::Hash();
}

void StepsActivate(bool on) { g_active = on; }
uint64_t Steps() { return g_steps; }
void SetStepBudget(uint64_t b) {
  g_budget = b;
  Recompute();
}
void AtStep(uint64_t at, std::function<void()> fn) {
  delete g_at_fn;
  g_at_fn = new std::function<void()>(std::move(fn));
  g_at = at;
  Recompute();
}
void ClearAtStep() {
  delete g_at_fn;
  g_at_fn = nullptr;
  g_at = ~0ull;
  Recompute();
}
uint64_t CoverageCount() {
  uint64_t n = 0;
  for (size_t i = 0; i < sizeof g_cov_local; i++) n += g_cov[i] != 0;
  return n;
}
void SetCoverageMap(unsigned char* m) { g_cov = m; }
const unsigned char* CoverageMap(size_t* n) {
  *n = sizeof g_cov_local;
  return g_cov;
}

long RunThreads(const std::vector<std::function<void()>>& bodies,
                const std::vector<SchedEntry>& schedule) {
  g_threads.clear();
  for (size_t i = 0; i < bodies.size(); i++) {
    Th* t = new Th;
    sem_init(&t->sem, 0, 0);
    g_threads.push_back(t);
  }
  sem_init(&g_main_sem, 0, 0);
  g_sched = &schedule;
  g_pos = 0;
  g_preempt = 0;
  g_ihash = sim::Hash();
  std::vector<Start> st(bodies.size());
  std::vector<pthread_t> ids(bodies.size());
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstacksize(&attr, 4 << 20);
  for (size_t i = 0; i < bodies.size(); i++) {
    st[i] = Start{(int)i, &bodies[i]};
    if (pthread_create(&ids[i], &attr, ThreadMain, &st[i]) != 0)
      Verdict("ENV", "cannot create thread");
  }
  int first = PickNext();
  g_ihash.U64((uint64_t)first);
  sem_post(&g_threads[first]->sem);
  while (sem_wait(&g_main_sem) != 0) {
  }
  for (auto& id : ids) pthread_join(id, nullptr);
  g_sched = nullptr;
  g_slice_end = ~0ull;
  long p = g_preempt;
  for (auto* t : g_threads) delete t;
  g_threads.clear();
  Recompute();
  return p;
}
uint64_t InterleavingHash() { return g_ihash.h; }

}  // namespace seam

using namespace seam;

extern "C" {

void __sanitizer_cov_trace_pc() {
  if (!g_active || t_sut <= 0) return;
  uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
  g_cov[(pc ^ (pc >> 16)) & 0xFFFF] = 1;
  if (++g_steps >= g_next) Slow();
}

void* __wrap_malloc(size_t n) {
  bool inj;
  void* p = Allocate(n, 16, &inj);
  if (!p) errno = ENOMEM;
  return p;
}
void __wrap_free(void* p) { Release(p); }
void* __wrap_calloc(size_t a, size_t b) {
  bool inj;
  if (b && a > SIZE_MAX / b) return nullptr;
  void* p = Allocate(a * b, 16, &inj);
  if (p) memset(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n);
  bool inj;
  size_t old = UserSize(p);
  void* q = Allocate(n, 16, &inj);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  Release(p);
  return q;
}
int __wrap_posix_memalign(void** out, size_t align, size_t n) {
  bool inj;
  void* p = Allocate(n, align, &inj);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* __wrap_aligned_alloc(size_t align, size_t n) {
  bool inj;
  return Allocate(n, align, &inj);
}

int __wrap_rand() {
  g_rand_draws++;
  t_rand_state = t_rand_state * 6364136223846793005ull + 1442695040888963407ull;
  int v = (int)(sim::Mix(t_rand_state) >> 33);
  switch (g_rand_mode) {
    case kRandZero:
      return v >> 12;  // tiny values: every draw close to the lower end
    case kRandMax:
      return RAND_MAX - (v >> 12);
    case kRandAlt:
      return (g_rand_draws & 1) ? v >> 16 : RAND_MAX - (v >> 16);
    default:
      return v;
  }
}
void __wrap_srand(unsigned) {}

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (t_self < 0 || g_threads.empty()) return __real_pthread_mutex_lock(m);
  for (;;) {
    int rc = __real_pthread_mutex_trylock(m);
    if (rc != EBUSY) return rc;
    // Holder is preempted: hand the baton to the next runnable thread.
    int n = (int)g_threads.size();
    for (int d = 1; d < n; d++) {
      int cand = (t_self + d) % n;
      if (!g_threads[cand]->done) {
        g_slice_end = g_steps + 200;
        SwitchTo(cand);
        break;
      }
    }
  }
}
int __wrap___cxa_guard_acquire(void* g) {
  if (t_self >= 0 && !g_threads.empty()) g_threads[t_self]->guard++;
  int r = __real___cxa_guard_acquire(g);
  if (r == 0 && t_self >= 0 && !g_threads.empty()) g_threads[t_self]->guard--;
  return r;
}
void __wrap___cxa_guard_release(void* g) {
  __real___cxa_guard_release(g);
  if (t_self >= 0 && !g_threads.empty()) g_threads[t_self]->guard--;
}
void __wrap___cxa_guard_abort(void* g) {
  __real___cxa_guard_abort(g);
  if (t_self >= 0 && !g_threads.empty()) g_threads[t_self]->guard--;
}

}  // extern "C"

void* operator new(size_t n) {
  bool inj;
  void* p = Allocate(n ? n : 1, 16, &inj);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  bool inj;
  return Allocate(n ? n : 1, 16, &inj);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  bool inj;
  return Allocate(n ? n : 1, 16, &inj);
}
void* operator new(size_t n, std::align_val_t a) {
  bool inj;
  void* p = Allocate(n ? n : 1, (size_t)a, &inj);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { Release(p); }
void operator delete[](void* p) noexcept { Release(p); }
void operator delete(void* p, size_t) noexcept { Release(p); }
void operator delete[](void* p, size_t) noexcept { Release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Release(p); }
void operator delete(void* p, std::align_val_t) noexcept { Release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Release(p); }
