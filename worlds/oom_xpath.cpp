// P20: allocations fail while XPath expressions are compiled and evaluated. The expressions and trees are P18's.
#include "xpath.cpp"
#include "oom.hpp"
namespace {
using oom::Scenario; using oom::Maker;
struct Xp : Scenario {
  std::unique_ptr<Engine> x; std::vector<Made> ms; std::vector<Op> ops; int stage; S r;         // stage 0: compile and evaluate, 1: compile only, 2: evaluate what was compiled with memory
  Xp(const std::vector<Op>& o, int stage) : ms(o.size()), ops(o), stage(stage) { }
  ~Xp() { sim::Sut s; ms.clear(); x.reset(); }
  void start() override { env = Env(); x = engine(true); if(stage == 2) for(size_t i = 0; i < ops.size(); ++i) compile(*x, texts[ops[i].text], ms[i]); }
  void op() override {
    { sim::Shield sh; r.clear(); }
    for(size_t i = 0; i < ops.size(); ++i) {
      const Op& o = ops[i]; const Text& t = texts[o.text];
      S g;
      if(stage != 2) { Made f; g = compile(*x, t, f); if(g.empty()) ms[i] = f; }
      if(g.empty() && stage != 1) g = evaluate(ms[i], t, o.ctx, o.entry, o.pos, o.last);
      sim::Shield sh; r += g + "\n"; if(g.find("threw bad_alloc") != S::npos) throw std::bad_alloc(); if(g.find("threw ") != S::npos) throw std::runtime_error(r);
    }
  }
  S result() override { return r; }
};
Maker make_xpath() {
  docs.clear(); loose.clear(); texts.clear(); nvar.clear(); mvar.clear(); env = Env(); build();
  for(auto& d : docs) sim::note("document: %s", show(d).c_str());
  std::vector<Node> all = everything(); for(int k = choose(4); k > 0; --k) nvar.push_back(all[choose((uint32_t)all.size())]);
  std::vector<Op> ops;
  for(int k = sim::range(1, 6); k > 0; --k) {
    if(texts.empty() || coin()) { Gen g; Text t; t.kind = chance(1, 5) ? 2 : chance(1, 8) ? 3 : 0; if(t.kind == 2) { g.vars = chance(1, 3); g.funcs = chance(1, 3); t.text = g.match(); } else if(t.kind == 3) t.text = g.avt(); else { bool set = chance(2, 3); t.text = set ? g.nodes(2) : g.expr(2); } texts.push_back(t); sim::note("XPath (%d): %s", t.kind, t.text.c_str()); }
    Op op; op.text = (int)texts.size() - 1; op.ctx = all[choose((uint32_t)all.size())]; op.entry = choose(6); ops.push_back(op);
  }
  int stage = choose(3);
  return [=] { return std::unique_ptr<Scenario>(new Xp(ops, stage)); };
}
}
namespace oom { Maker xpath() { return make_xpath(); } }
