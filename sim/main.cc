// sim batch <prop> <first seed> <count> <thorough> <shard> <shards> <deadline s>
// sim exec <plan file> [verbose]
// sim gen <prop> <seed> <thorough>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "world.h"

using namespace sim;

namespace {
Report* g_rep = nullptr;
FILE* g_log = nullptr;

void Put(const std::string& kind, const std::string& msg) {
  if (g_rep->state == 2) return;
  snprintf(g_rep->kind, sizeof g_rep->kind, "%s", kind.c_str());
  snprintf(g_rep->msg, sizeof g_rep->msg, "%s", msg.c_str());
  for (char* p = g_rep->msg; *p; p++)
    if ((unsigned char)*p < 32) *p = ' ';
  g_rep->steps = seam::Steps();
  g_rep->state = 2;
}
void OnVerdict(const std::string& kind, const std::string& msg) {
  Put(kind, msg);
  fflush(nullptr); _exit(7);
}
void OnSignal(int sig) {
  if (g_rep->state != 2) {
    snprintf(g_rep->kind, sizeof g_rep->kind, "CRASH");
    snprintf(g_rep->msg, sizeof g_rep->msg, "signal %d (%s)", sig,
             sig == SIGSEGV ? "invalid memory access"
             : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic fault" : "fault");
    g_rep->state = 2;
  }
  _exit(8);
}

void Child(const Plan& plan, bool verbose) {
  static char stack[1 << 16];
  stack_t ss = {};
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_handler = OnSignal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  rlimit as = {6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &as);
  seam::SetVerdictHandler(OnVerdict);
  std::string ex;
  try {
    World w(plan, g_rep, verbose);
    w.Run();
    g_rep->state = 1;
  } catch (std::exception& e) {
    ex = e.what();
  } catch (...) {
    ex = "unknown exception";
  }
  if (!ex.empty()) Put("EXCEPTION", "escaped exception: " + ex);
  fflush(nullptr);
  _exit(0);
}

// Returns false when the run had to be killed (an error of the check).
bool RunForked(const Plan& plan, bool verbose, int wall_s) {
  memset((void*)g_rep, 0, sizeof *g_rep);
  g_rep->op = -2;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) Child(plan, verbose);
  int st = 0;
  time_t t0 = time(nullptr);
  for (;;) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    usleep(300);
    if (time(nullptr) - t0 > wall_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return false;
    }
  }
  if (g_rep->state == 0) {
    snprintf(g_rep->kind, sizeof g_rep->kind, "CRASH");
    if (WIFSIGNALED(st))
      snprintf(g_rep->msg, sizeof g_rep->msg, "process died with signal %d", WTERMSIG(st));
    else
      snprintf(g_rep->msg, sizeof g_rep->msg, "process exited with status %d", WEXITSTATUS(st));
    g_rep->state = 2;
  }
  return true;
}
}  // namespace

int main(int argc, char** argv) {
  // Fixed addresses: a run must not depend on address space randomisation.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
    setenv("SIM_NOREEXEC", "1", 1);
    if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string cmd = argc > 1 ? argv[1] : "";
  auto shared = [](size_t n) {
    return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  };
  g_rep = (Report*)shared(sizeof(Report));
  unsigned char* cov = (unsigned char*)shared(65536);
  seam::SetCoverageMap(cov);
  if (cmd == "gen" && argc >= 4) {
    fputs(MakePlan(argv[2], strtoull(argv[3], 0, 10), argc > 4 && atoi(argv[4])).Text().c_str(), stdout);
    return 0;
  }
  if (cmd == "exec" && argc >= 3) {
    std::ifstream f(argv[2]);
    std::stringstream b;
    b << f.rdbuf();
    Plan p = Plan::Parse(b.str());
    if (!KnownProperty(p.prop)) return fprintf(stderr, "bad plan\n"), 2;
    if (!RunForked(p, argc > 3, 300)) {
      printf("RESULT timeout\n");
      return 2;
    }
    printf("RESULT %s hash=%016llx inter=%016llx op=%d steps=%llu kind=%s msg=%s\n",
           g_rep->state == 1 ? "ok" : "violation", g_rep->event_hash, g_rep->interleaving, g_rep->op,
           g_rep->steps, g_rep->kind, g_rep->msg);
    return g_rep->state == 1 ? 0 : 1;
  }
  if (cmd == "batch" && argc >= 9) {
    std::string prop = argv[2];
    if (!KnownProperty(prop)) return 2;
    unsigned long long first = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10);
    bool thorough = atoi(argv[5]);
    unsigned long long shard = strtoull(argv[6], 0, 10), shards = strtoull(argv[7], 0, 10);
    double deadline = atof(argv[8]);
    timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    long totals[kNumCounters] = {};
    for (unsigned long long i = shard; i < count; i += shards) {
      timespec t;
      clock_gettime(CLOCK_MONOTONIC, &t);
      if (t.tv_sec - t0.tv_sec > deadline) break;
      unsigned long long seed = first + i;
      Plan p = MakePlan(prop, seed, thorough);
      if (!RunForked(p, false, 120)) {
        printf("T %llu\n", seed);
        continue;
      }
      for (int c = 0; c < kNumCounters; c++) totals[c] += g_rep->counters[c];
      printf("%c %llu %016llx %016llx %llu %llu %d %s|%s\n", g_rep->state == 1 ? 'R' : 'V', seed,
             g_rep->event_hash, g_rep->interleaving, g_rep->steps, g_rep->rand_draws, g_rep->op,
             g_rep->state == 1 ? "" : g_rep->kind, g_rep->state == 1 ? "" : g_rep->msg);
      fflush(stdout);
    }
    printf("C");
    for (int c = 0; c < kNumCounters; c++) printf(" %s=%ld", CounterName(c), totals[c]);
    printf("\nM ");
    for (int i = 0; i < 65536; i += 4) {
      int v = 0;
      for (int j = 0; j < 4; j++) v |= (cov[i + j] != 0) << j;
      printf("%x", v);
    }
    printf("\n");
    return 0;
  }
  fprintf(stderr, "usage\n");
  return 2;
}
