// Seeded generation of plans: workload, environment and fault schedule.
#include "plan.h"

#include <cmath>

namespace sim {

namespace {

using Strs = std::vector<std::string>;

struct G {
  Plan p;
  Rng r;
  bool thorough;
  explicit G(const std::string& prop, unsigned long long seed, bool th) : r(0), thorough(th) {
    p.prop = prop;
    p.seed = seed;
    Hash h;
    h.Bytes(prop.data(), prop.size());
    r = Rng(Mix2(seed, h.h));
  }
  long long Seed() { return (long long)(r.Next() >> 1); }
  Op& Add(const Op& o) {
    p.ops.push_back(o);
    return p.ops.back();
  }
  Op New(int slot, const std::string& fam) {
    Op o("new");
    o.Set("slot", slot).Set("gen", Seed()).Set("fam", fam);
    if (r.Chance(.25)) o.Set("order", Seed());
    // Families whose constraints can be entered through the C interface.
    if (fam == "cinc" || fam == "ciq" || fam == "cinco") o.Set("api", 2);
    else if (fam == "cdense" || fam == "csparse") o.Set("api", 1);
    else if (r.Chance(.15)) o.Set("api", r.Int(1, 2));
    if (r.Chance(.25)) o.Set("resc", 0);
    if (r.Chance(.12)) o.Set("vars", r.Int(6, 9)).Set("cons", 6);
    if (r.Chance(.1)) o.Set("vars", 1);
    // Not for P07: a singular system amplifies rounding.
    if (p.prop != "P07" && r.Chance(o.Int("api", 0) == 2 ? .5 : .1)) o.Set("sp", Seed());
    return o;
  }
  Op Solve(int slot, int mode, bool random_cfg = true) {
    Op o("solve");
    o.Set("slot", slot);
    if (mode) o.Set("mode", 1);
    if (random_cfg && r.Chance(.75)) o.Set("cfg", Seed());
    if (r.Chance(.3)) o.Set("via", 1);
    if (!mode && r.Chance(.2)) o.Set("resc", r.Int(0, 1));
    if (r.Chance(.15)) o.Set("y", Seed());
    return o;
  }
  Op Env(bool streams, bool guard) {
    Op o("env");
    o.Set("fill", r.Int(-1, 5)).Set("free", r.Int(-1, 5)).Set("fseed", Seed());
    o.Set("stack", r.Int(-1, 5));
    if (guard) o.Set("guard", 1);
    if (streams) {
      if (r.Chance(.4)) o.Set("out", r.Chance(.3) ? 0 : r.Int(1, 400));
      if (r.Chance(.2)) o.Set("outbad", 1);
      if (r.Chance(.3)) o.Set("heal", r.Int(0, 6));
      if (r.Chance(.3)) o.Set("err", r.Int(0, 100));
    }
    return o;
  }
};

std::string Any(Rng* r) {
  static const Strs f = {"lin", "lmi",  "h1",  "h2",     "h4",      "soc",  "quad", "sdp",
                         "nooct", "mix", "mix", "nooct", "cdense", "csparse", "cinc", "ciq",
                         "cinco", "qp",  "oct", "easy"};
  return r->Pick(f);
}

// One step of a history of data changes.
void Mutate(G& g, int slot, double eps, bool fail) {
  double u = g.r.Unit();
  Op o;
  if (u < .5) {
    o = Op("cost");
    o.Set("slot", slot).Set("gen", g.Seed()).SetD("eps", eps);
    if (g.r.Chance(.4)) o.Set("split", g.r.Int(1, 2));
  } else {
    o = Op("upd");
    o.Set("slot", slot).Set("con", g.r.Int(0, 7)).Set("gen", g.Seed()).SetD("eps", eps);
    if (g.r.Chance(.4)) o.Set("via", 1);
  }
  if (fail) o.SetD("fail", g.r.Unit());
  g.Add(o);
}

// ------------------------------------------------------------------ P01/P02
void Certified(G& g) {
  int n = g.r.Int(2, 4);
  if (g.r.Chance(.5)) {
    Op e = g.Env(false, false);
    e.Set("rand", g.r.Int(0, 3));
    g.Add(e);
  }
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, Any(&g.r));
    if (g.r.Chance(.3)) o.Set("ws", i);
    g.Add(o);
    // Low accuracy and little centering: the margins of the final point are visible.
    auto loose = [&](Op* s) {
      s->SetD("ismu", std::pow(10, g.r.Uniform(-.5, 2.5))).Set("fcn", g.r.Int(0, 2));
      if (g.r.Chance(.5)) s->SetD("div", std::pow(10, g.r.Uniform(0, 3)));
      if (g.r.Chance(.3)) s->SetD("dinf", std::pow(10, g.r.Uniform(0, 4)));
      if (g.r.Chance(.3)) s->SetD("fct", std::pow(10, g.r.Uniform(-2, 2)));
    };
    Op first = g.Solve(i, 0);
    if (g.r.Chance(.3)) loose(&first);
    g.Add(first);
    int k = g.r.Int(0, 2);
    for (int j = 0; j < k; j++) {
      Op s = g.Solve(i, g.r.Chance(.5));
      if (g.r.Chance(.3)) loose(&s);
      if (g.r.Chance(.2)) s.Set("iters", g.r.Int(0, 12));
      g.Add(s);
    }
  }
}

void Progress(G& g) {
  int n = g.r.Int(2, 4);
  if (g.r.Chance(.5)) g.Add(g.Env(false, false));
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, g.r.Pick(Strs{"easy", "easy", "lin", "h1", "h2", "h4", "soc", "cinc", "ciq"}));
    g.Add(o);
    Op s = g.Solve(i, 0, false);
    s.Set("easy", 1);
    if (g.r.Chance(.4)) s.Set("kkt", g.r.Int(0, 2));
    if (g.r.Chance(.3)) s.SetD("ismu", std::pow(10, g.r.Uniform(2.5, 3.3)));
    if (g.r.Chance(.3)) s.Set("dual", 1);
    g.Add(s);
    // Warm starts, from completed and interrupted solves, after small and large changes.
    int k = g.r.Int(0, 3);
    for (int j = 0; j < k; j++) {
      // After a change of the data only a warm start that is aborted, and so
      // starts over, can be relied upon.
      bool abort = g.r.Chance(.6);
      int c = abort ? g.r.Int(0, 3) : 0;
      double eps = g.r.Pick(std::vector<double>{.01, .1, 1});
      for (int l = 0; l < c; l++) Mutate(g, i, eps, false);
      if (g.r.Chance(.2)) {
        Op t = g.Solve(i, g.r.Chance(.5), false);
        t.Set("iters", g.r.Int(1, 8));
        g.Add(t);
      }
      Op w = g.Solve(i, g.r.Chance(.8), false);
      w.Set("easy", 1);
      if (abort) w.SetD("wat", 1e-9);
      else if (g.r.Chance(.2)) w.SetD("wat", std::pow(10, g.r.Uniform(-1, 3)));
      if (g.r.Chance(.2)) w.SetD("ismu", std::pow(10, g.r.Uniform(2.5, 3.3)));
      g.Add(w);
    }
  }
}

void Duals(G& g) {
  int n = g.r.Int(2, 4);
  if (g.r.Chance(.4)) g.Add(g.Env(false, false));
  for (int i = 0; i < n; i++) {
    std::string f = g.r.Pick(Strs{"readable", "readable", "lin", "lmi", "h1", "cdense", "nooct", "sdp", "cinc"});
    Op o = g.New(i, f);
    if (g.r.Chance(.3)) o.Set("ws", i);
    g.Add(o);
    int k = g.r.Int(1, 3);
    for (int j = 0; j < k; j++) {
      Op s = g.Solve(i, j > 0 && g.r.Chance(.4));
      s.Set("dual", 1).Set("duals", 1);
      g.Add(s);
      if (g.r.Chance(.4)) Mutate(g, i, .1, false);
    }
  }
}

void IllPosed(G& g) {
  int n = g.r.Int(2, 4);
  if (g.r.Chance(.4)) g.Add(g.Env(false, false));
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, g.r.Pick(Strs{"lin", "lmi", "h1", "h2", "h4", "soc", "quad", "nooct", "mix", "cdense",
                                  "csparse", "cinc", "oct", "lp"}));
    int ill = g.r.Int(0, 3);
    if (ill) o.Set("ill", ill);
    g.Add(o);
    int k = g.r.Int(1, 2);
    for (int j = 0; j < k; j++) {
      Op s = g.Solve(i, 0);
      if (g.r.Chance(.15)) s.Set("iters", g.r.Int(0, 20));
      if (g.r.Chance(.15)) s.SetD("dinf", std::pow(10, g.r.Uniform(1, 8)));
      if (g.r.Chance(.15)) s.SetD("div", g.r.Uniform(.2, 3));
      if (g.r.Chance(.5)) {
        // Thresholds at which infeasibility is claimed.
        double t = std::pow(10, g.r.Uniform(1.5, 7));
        s.SetD("inft", t).SetD("maxmu", t * std::pow(10, g.r.Uniform(.5, 4)));
      }
      g.Add(s);
    }
  }
}

// ---------------------------------------------------------------- histories
void ColdHistory(G& g) {
  int n = g.r.Int(1, 2);
  if (g.r.Chance(.3)) g.Add(g.Env(false, false));
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, Any(&g.r));
    if (g.r.Chance(.6)) o.Set("ws", i);
    g.Add(o);
  }
  int len = g.r.Int(3, 7);
  for (int k = 0; k < len; k++) {
    int i = g.r.Int(0, n - 1);
    double u = g.r.Unit();
    if (u < .3) {
      Mutate(g, i, g.r.Pick(std::vector<double>{.02, .2, 1}), false);
      if (g.r.Chance(.5)) Mutate(g, i, .2, false);
    } else if (u < .4) {
      Op a("add");
      a.Set("slot", i).Set("gen", g.Seed()).Set("fam", g.r.Pick(Strs{"lin", "sdp", "soc", "mix"}));
      g.Add(a);
    } else if (u < .46) {
      Op a("feasobj");
      a.Set("slot", i);
      g.Add(a);
    } else if (u < .54) {
      Op a("restart");
      a.Set("slot", i);
      g.Add(a);
    }
    Op s = g.Solve(i, g.r.Chance(.35));
    if (g.r.Chance(.2)) s.Set("iters", g.r.Pick(std::vector<int>{1, 2, 5, 9, 30, 120}));
    g.Add(s);
  }
  for (int i = 0; i < n; i++) g.Add(g.Solve(i, 0));
}

void WarmHistory(G& g) {
  int n = g.r.Int(1, 2);
  if (g.r.Chance(.4)) g.Add(g.Env(false, false));
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, g.r.Pick(Strs{"upd", "upd", "cinc", "ciq", "qp", "nooct", "lin", "sdp", "cinco", "mix", "easy"}));
    if (g.r.Chance(.4)) o.Set("ws", i);
    g.Add(o);
    g.Add(g.Solve(i, 0, g.r.Chance(.5)));
  }
  int len = g.r.Int(3, 8);
  for (int k = 0; k < len; k++) {
    int i = g.r.Int(0, n - 1);
    int c = g.r.Int(0, 3);
    double eps = g.r.Pick(std::vector<double>{.001, .01, .05, .3, 1.5});
    for (int j = 0; j < c; j++) Mutate(g, i, eps, false);
    if (g.r.Chance(.05)) {
      Op a("add");
      a.Set("slot", i).Set("gen", g.Seed()).Set("fam", "upd");
      g.Add(a);
    }
    Op s = g.Solve(i, g.r.Chance(.85), g.r.Chance(.5));
    if (g.r.Chance(.15)) s.Set("iters", g.r.Pick(std::vector<int>{0, 1, 3, 6, 10, 150}));
    if (g.r.Chance(.2)) s.SetD("wat", g.r.Pick(std::vector<double>{.01, 1, 1e9}));
    g.Add(s);
  }
}

void Slices(G& g) {
  if (g.r.Chance(.3)) g.Add(g.Env(false, false));
  int n = g.r.Int(1, 3);
  for (int i = 0; i < n; i++) {
    bool restart = g.r.Chance(.5);
    Op o = g.New(i, restart ? g.r.Pick(Strs{"warm", "lin", "lmi", "lp", "csparse"})
                            : g.r.Pick(Strs{"warm", "lin", "lmi", "sdp", "h1", "h2", "h4", "nooct", "cinc"}));
    g.Add(o);
    int k = g.r.Int(1, 2);
    for (int j = 0; j < k; j++) {
      Op s("slice");
      s.Set("slot", i).Set("gen", g.Seed()).Set("iters", g.r.Int(2, 9)).Set("slices", g.r.Int(2, 4));
      if (g.r.Chance(.5)) s.Set("cfg", g.Seed());
      if (restart && g.r.Chance(.7)) s.Set("restart", 1);
      g.Add(s);
    }
  }
}

void CrashRestart(G& g) {
  int n = g.r.Int(1, 2);
  if (g.r.Chance(.5)) g.Add(g.Env(false, g.r.Chance(.2)));
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, g.r.Pick(Strs{"warm", "warm", "lin", "lmi", "soc", "quad", "csparse", "cdense", "lp"}));
    o.Set("ws", i);
    g.Add(o);
    if (g.r.Chance(.7)) g.Add(g.Solve(i, 0));
  }
  int len = g.r.Int(3, 7);
  for (int k = 0; k < len; k++) {
    int i = g.r.Int(0, n - 1);
    double u = g.r.Unit();
    if (u < .3) {
      Op s = g.Solve(i, g.r.Chance(.4));
      // Biased towards the start (initialisation) and the end (final centering).
      double f = g.r.Unit();
      if (g.r.Chance(.25)) f *= .05;
      if (g.r.Chance(.2)) f = 1 - f * .05;
      s.SetD("crash", f);
      g.Add(s);
    } else if (u < .55) {
      Op a("restart");
      a.Set("slot", i);
      if (g.r.Chance(.4)) a.Set("bytes", g.Seed());
      g.Add(a);
    } else if (u < .7) {
      Mutate(g, i, .05, false);
    } else if (u < .78) {
      Op o = g.New(i, "warm");
      o.Set("ws", g.r.Int(0, n - 1));
      g.Add(o);
    }
    Op s = g.Solve(i, g.r.Chance(.6));
    if (s.Has("mode")) s.Set("rewarm", 1);
    if (g.r.Chance(.15)) s.Set("iters", g.r.Pick(std::vector<int>{1, 2, 5, 9}));
    g.Add(s);
  }
  for (int i = 0; i < n; i++) g.Add(g.Solve(i, 0));
}

void Environment(G& g) {
  int nv = g.r.Int(2, 3);
  for (int i = 0; i < nv; i++) {
    Op o = g.Env(true, i == 0 && g.r.Chance(.3));
    o.name = "variant";
    if (i == 0) o.Set("fill", 1).Set("free", 1);
    g.Add(o);
  }
  int n = g.r.Int(1, 2);
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, Any(&g.r));
    if (g.r.Chance(.5)) o.Set("ws", i);
    if (g.r.Chance(.1)) o.Set("ill", g.r.Int(1, 3));
    g.Add(o);
  }
  int len = g.r.Int(2, 6);
  for (int k = 0; k < len; k++) {
    int i = g.r.Int(0, n - 1);
    double u = g.r.Unit();
    if (u < .25) Mutate(g, i, .1, false);
    else if (u < .3) g.Add(Op("feasobj").Set("slot", i));
    else if (u < .38)
      g.Add(Op("kkt").Set("gen", g.Seed()).Set("vars", 10).Set("blocks", 6).Set("eq", g.r.Int(0, 1)));
    else if (u < .45)
      g.Add(Op("add").Set("slot", i).Set("gen", g.Seed()).Set("fam", "nooct"));
    Op s = g.Solve(i, g.r.Chance(.4));
    if (g.r.Chance(.3)) s.Set("iters", g.r.Pick(std::vector<int>{0, 1, 4, 12, 100}));
    if (g.r.Chance(.2)) s.SetD("ismu", std::pow(10, g.r.Uniform(2, 6)));
    g.Add(s);
  }
}

void Threads(G& g) {
  Op e("env");
  if (g.r.Chance(.6)) {
    int f = g.r.Int(-1, 1);
    e.Set("fill", f).Set("free", f);
  }
  g.Add(e);
  int nt = g.r.Int(2, 4);
  for (int t = 0; t < nt; t++) {
    int first = (int)g.p.ops.size();
    int n = g.r.Int(1, 2);
    for (int i = 0; i < n; i++) {
      Op o = g.New(i, Any(&g.r));
      if (g.r.Chance(.4)) o.Set("ws", i);
      g.Add(o);
      Op s = g.Solve(i, 0);
      if (g.r.Chance(.5)) s.Set("iters", g.r.Int(2, 14));
      g.Add(s);
      int k = g.r.Int(0, 2);
      for (int j = 0; j < k; j++) {
        if (g.r.Chance(.5)) Mutate(g, i, .1, false);
        if (g.r.Chance(.1)) g.Add(Op("feasobj").Set("slot", i));
        Op w = g.Solve(i, g.r.Chance(.6));
        if (g.r.Chance(.5)) w.Set("iters", g.r.Int(2, 10));
        g.Add(w);
      }
      if (g.r.Chance(.3)) g.Add(Op("destroy").Set("slot", i));
    }
    if (g.r.Chance(.15))
      g.Add(Op("kkt").Set("gen", g.Seed()).Set("vars", 8).Set("blocks", 5).Set("eq", g.r.Int(0, 1)));
    for (size_t j = (size_t)first; j < g.p.ops.size(); j++) g.p.ops[j].Set("t", t);
  }
  // Bursts of single-digit quanta place preemptions inside small functions;
  // long quanta move through whole solves.
  std::string sched;
  int ne = g.r.Int(20, g.thorough ? 600 : 250);
  double scale = std::pow(10, g.r.Uniform(1.5, 5.5));
  for (int i = 0; i < ne; i++) {
    double q = g.r.Chance(.5) ? std::exp(g.r.Uniform(0, std::log(scale))) : scale * g.r.Unit();
    if (g.r.Chance(.15)) q = g.r.Int(1, 12);
    sched += std::to_string(g.r.Int(0, nt - 1)) + ":" + std::to_string(1 + (long long)q) + ",";
  }
  g.Add(Op("run").Set("sched", sched));
}

void AllocFaults(G& g) {
  if (g.r.Chance(.5)) g.Add(g.Env(false, g.r.Chance(.3)));
  int n = g.r.Int(1, 2);
  auto fail = [&](Op& o, double p) {
    if (!g.r.Chance(p)) return;
    o.SetD("fail", g.r.Unit());
    if (g.r.Chance(.3)) o.Set("failn", g.r.Pick(std::vector<int>{2, 3, 10, 1000}));
  };
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, Any(&g.r));
    if (g.r.Chance(.5)) o.Set("ws", i);
    fail(o, .5);
    g.Add(o);
  }
  int len = g.r.Int(2, 6);
  for (int k = 0; k < len; k++) {
    int i = g.r.Int(0, n - 1);
    double u = g.r.Unit();
    if (u < .25) Mutate(g, i, .1, g.r.Chance(.5));
    else if (u < .5) {
      Op a("add");
      a.Set("slot", i).Set("gen", g.Seed()).Set("fam", g.r.Pick(Strs{"lin", "sdp", "soc", "mix", "nooct", "readable"}));
      if (g.r.Chance(.5)) a.Set("retry", 0);
      fail(a, .8);
      g.Add(a);
    }
    Op s = g.Solve(i, g.r.Chance(.3));
    if (g.r.Chance(.5)) s.Set("iters", g.r.Int(2, 30));
    fail(s, .6);
    if (s.Has("fail") && g.r.Chance(.4)) s.SetD("fail", std::pow(s.Dbl("fail"), 4));
    g.Add(s);
    if (s.Has("fail")) g.Add(g.Solve(i, g.r.Chance(.3)));
  }
  for (int i = 0; i < n; i++) g.Add(g.Solve(i, 0));
}

void Invalid(G& g) {
  if (g.r.Chance(.4)) g.Add(g.Env(false, g.r.Chance(.4)));
  int n = g.r.Int(1, 2);
  auto bad = [&](int i) {
    int k = g.r.Int(1, 4);
    for (int j = 0; j < k; j++)
      g.Add(Op("bad").Set("slot", i).Set("gen", g.Seed()).Set("what", g.r.Int(0, 25)));
  };
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, g.r.Pick(Strs{"upd", "upd", "cinc", "ciq", "cinco", "mix", "nooct", "csparse", "qp", "cdense"}));
    if (g.r.Chance(.3)) o.Set("ws", i);
    g.Add(o);
    if (g.r.Chance(.6)) bad(i);
  }
  int len = g.r.Int(2, 5);
  for (int k = 0; k < len; k++) {
    int i = g.r.Int(0, n - 1);
    if (g.r.Chance(.8)) bad(i);
    if (g.r.Chance(.3)) Mutate(g, i, .1, false);
    if (g.r.Chance(.3)) bad(i);
    Op s = g.Solve(i, g.r.Chance(.4));
    if (g.r.Chance(.4)) s.Set("iters", g.r.Int(2, 20));
    g.Add(s);
  }
}

void Reads(G& g) {
  if (g.r.Chance(.4)) g.Add(g.Env(false, g.r.Chance(.4)));
  int n = g.r.Int(1, 2);
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, g.r.Pick(Strs{"readable", "readable", "lmi", "h1", "cdense", "nooct", "cinc", "lin", "mix"}));
    if (g.r.Chance(.4)) o.Set("ws", i);
    if (g.r.Chance(.1)) o.Set("ill", g.r.Int(1, 3));
    g.Add(o);
  }
  int len = g.r.Int(3, 7);
  for (int k = 0; k < len; k++) {
    int i = g.r.Int(0, n - 1);
    if (g.r.Chance(.4)) Mutate(g, i, .1, false);
    Op s = g.Solve(i, g.r.Chance(.4));
    if (g.r.Chance(.7)) s.Set("dual", 1).Set("duals", 1);
    if (g.r.Chance(.4)) s.Set("iters", g.r.Pick(std::vector<int>{0, 1, 2, 5, 11, 40, 130}));
    g.Add(s);
    int c = g.r.Int(0, 2);
    for (int j = 0; j < c; j++)
      g.Add(Op("reads").Set("slot", g.r.Int(0, n - 1)).Set("gen", g.Seed()).Set("n", g.r.Int(2, 10)));
  }
}

void Kkt(G& g) {
  if (g.r.Chance(.6)) g.Add(g.Env(false, g.r.Chance(.3)));
  int n = g.r.Int(2, 5);
  for (int i = 0; i < n; i++)
    g.Add(Op("kkt")
              .Set("gen", g.Seed())
              .Set("vars", g.r.Pick(std::vector<int>{3, 8, 14, 25, 40}))
              .Set("blocks", g.r.Pick(std::vector<int>{2, 5, 9, 16, 25}))
              .Set("eq", g.r.Int(0, 1)));
}

void Equiv(G& g) {
  if (g.r.Chance(.4)) g.Add(g.Env(false, false));
  int n = g.r.Int(1, 3);
  for (int i = 0; i < n; i++) {
    std::string f = Any(&g.r);
    g.Add(g.New(i, f));
    int k = g.r.Int(2, 4);
    for (int j = 0; j < k; j++) {
      if (g.r.Chance(.3)) Mutate(g, i, .2, false);
      Op o("equiv");
      o.Set("slot", i).Set("gen", g.Seed()).Set("how", g.r.Int(0, 12));
      if (g.r.Chance(.5)) o.Set("cfg", g.Seed());
      g.Add(o);
    }
  }
}

void Hostile(G& g) {
  if (g.r.Chance(.5)) g.Add(g.Env(false, g.r.Chance(.3)));
  g.Add(g.New(9, Any(&g.r)));
  g.Add(g.Solve(9, 0));
  int n = g.r.Int(2, 4);
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, Any(&g.r));
    o.Set("hostile", 1);
    if (g.r.Chance(.4)) o.Set("ws", i);
    g.Add(o);
    g.Add(g.Solve(i, 0));
    if (g.r.Chance(.4)) g.Add(g.Solve(i, g.r.Chance(.6)));
  }
  // An innocent program in the same process.
  g.Add(g.Solve(9, g.r.Chance(.5)));
  g.Add(g.Solve(9, 0));
}

void Memory(G& g) {
  Op e = g.Env(g.r.Chance(.3), g.r.Chance(.75));
  g.Add(e);
  int n = g.r.Int(1, 3);
  int len = g.r.Int(5, 10);
  for (int i = 0; i < n; i++) {
    Op o = g.New(i, Any(&g.r));
    if (g.r.Chance(.5)) o.Set("ws", g.r.Int(0, n - 1));
    g.Add(o);
  }
  for (int k = 0; k < len; k++) {
    int i = g.r.Int(0, n - 1);
    double u = g.r.Unit();
    if (u < .15) {
      Op o = g.New(i, Any(&g.r));
      if (g.r.Chance(.7)) o.Set("ws", g.r.Int(0, n - 1));
      if (g.r.Chance(.1)) o.Set("ill", g.r.Int(1, 3));
      if (g.r.Chance(.1)) o.Set("hostile", 1);
      g.Add(o);
    } else if (u < .22) g.Add(Op("destroy").Set("slot", i));
    else if (u < .3)
      g.Add(Op("add").Set("slot", i).Set("gen", g.Seed()).Set("fam", g.r.Pick(Strs{"lin", "mix", "sdp"})));
    else if (u < .36) g.Add(Op("feasobj").Set("slot", i));
    else if (u < .4) g.Add(Op("restart").Set("slot", i));
    else if (u < .45)
      g.Add(Op("kkt").Set("gen", g.Seed()).Set("vars", 9).Set("blocks", 6).Set("eq", g.r.Int(0, 1)));
    else if (u < .6) Mutate(g, i, .1, false);
    Op s = g.Solve(i, g.r.Chance(.45));
    if (g.r.Chance(.5)) s.Set("dual", 1).Set("duals", 1);
    if (g.r.Chance(.6)) s.Set("iters", g.r.Pick(std::vector<int>{0, 1, 2, 3, 7, 15, 40, 120, 200}));
    g.Add(s);
    if (g.r.Chance(.25))
      g.Add(Op("reads").Set("slot", i).Set("gen", g.Seed()).Set("n", 6));
  }
}

using Fn = void (*)(G&);
Fn Find(const std::string& p) {
  if (p == "P01") return Certified;
  if (p == "P02") return Progress;
  if (p == "P03") return Duals;
  if (p == "P04") return IllPosed;
  if (p == "P05") return ColdHistory;
  if (p == "P06") return WarmHistory;
  if (p == "P07") return Slices;
  if (p == "P08") return CrashRestart;
  if (p == "P09") return Environment;
  if (p == "P10") return Threads;
  if (p == "P11") return AllocFaults;
  if (p == "P12") return Invalid;
  if (p == "P13") return Reads;
  if (p == "P14") return Kkt;
  if (p == "P15") return Equiv;
  if (p == "P16") return Hostile;
  if (p == "P17") return Memory;
  return nullptr;
}
}  // namespace

bool KnownProperty(const std::string& prop) { return Find(prop) != nullptr; }

Plan MakePlan(const std::string& prop, unsigned long long seed, bool thorough) {
  G g(prop, seed, thorough);
  Find(prop)(g);
  return g.p;
}

}  // namespace sim
