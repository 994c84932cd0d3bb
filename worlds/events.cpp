// P14: event dispatch over trees that listeners change while it goes on.
#include "events.hpp"
#include <map>
#include <set>
#include <memory>
#include <sstream>
using namespace sim;
namespace {
using namespace ev;
struct Boom {};
struct World;
struct Lis : Listener {
  World& w; int id; bool dead = false; int calls = 0;
  Lis(World& w, int i) : w(w), id(i) {}
  void handleEvent(Event& e) override;
};
struct RegM { int type, lis; bool cap; };
struct NodeM { Node h; Target t; const void* raw = 0; int parent = -1, doc = -1; bool isDoc = false, target = false; std::vector<RegM> regs; S name; };
struct Frame { int ev, target; std::vector<int> chain; int step = -1; int phase = 0; int at = -1; std::vector<RegM> snap; size_t idx = 0; bool stopped = false, prevented = false; };
struct EvM { Event h; int type; bool bubbles, cancel, mut; bool busy = false; };

const char* TYPES[] = {"a", "b", "DOMNodeInserted"};
struct World {
  std::vector<NodeM> ns; std::vector<EvM> es; std::vector<std::unique_ptr<Lis>> ls; std::vector<Frame*> stack;
  std::set<std::tuple<int, int, int, bool>> removed;      // taken off during a dispatch: not put back before it ends
  bool gone = false; int budget = 0; long total = 0; uint64_t sh = 0;
  void die(const char* c, const S& m) { fail(c, m); }

  bool under(int n, int anc) { for(; n >= 0; n = ns[n].parent) if(n == anc) return true; return false; }
  void build() {
    heap_choose_policy();
    int docs = range(1, 2);
    for(int d = 0; d < docs; ++d) {
      NodeM m; m.isDoc = true; m.doc = ns.size(); m.target = coin(); m.name = "doc" + std::to_string(d);
      { Sut s; D::Document_impl<S, A>* di; if(m.target) { TDoc* t = new TDoc; di = t; m.raw = static_cast<D::Events::EventTarget_impl<S, A>*>(t); m.h = D::Document<S>(t); m.t = Target(m.h); } else { PlainDoc* t = new PlainDoc; m.h = D::Document<S>(t); } }
      int me = ns.size(); ns.push_back(m);
      int n = range(1, 5);
      for(int i = 0; i < n; ++i) {
        NodeM e; e.doc = me; int kind = choose(6); e.target = kind != 4; 
        e.name = (kind == 5 ? "t" : kind == 4 ? "x" : "e") + std::to_string(ns.size());
        { Sut s; D::Document<S> doc(ns[me].h); if(kind == 5) e.h = doc.createTextNode(e.name); else e.h = doc.createElement(e.name);
          if(e.target) { e.t = Target(e.h); e.raw = e.t.Impl(); } }
        if(!e.target) { bool threw = false; try { Sut s; Target t(e.h); } catch(const D::DOMException&) { threw = true; } if(!threw) die("not-a-target", "a node that is no event target was made one"); probe("non-target node"); }
        ns.push_back(e);
        int self = ns.size() - 1;
        if(i == 0 && kind != 5) attach(self, me); else if(!chance(1, 6)) attach(self, pickParent(self));
      }
    }
    if(chance(1, 5)) { NodeM e; e.name = "lone"; e.target = true; { Sut s; e.t = Target(new Lone); e.raw = e.t.Impl(); } ns.push_back(e); probe("target that is no node"); }
    int n = range(1, 3);
    for(int i = 0; i < n; ++i) { EvM e; e.mut = chance(1, 4); { Sut s; if(e.mut) e.h = MutEvent(new SD::MutationEventImpl<S, A>()); else e.h = Event(new SD::EventImpl<S, A>()); } e.type = -1; es.push_back(e); init(i); }
    int l = range(1, 6);
    for(int i = 0; i < l; ++i) newLis();
    for(int i = range(2, 14); i > 0; --i) opAdd();
  }
  void newLis() { ls.push_back(std::unique_ptr<Lis>(new Lis(*this, ls.size()))); }
  int pickParent(int self) { std::vector<int> c; for(int i = 0; i < (int)ns.size(); ++i) if(i != self && ns[i].doc == ns[self].doc && !ns[i].isDoc && ns[i].h && ns[i].name[0] != 't' && !under(i, self)) c.push_back(i); return c.empty() ? -1 : pick(c); }
  void attach(int c, int p) {
    if(p < 0) return;
    if(ns[p].isDoc) for(auto& n : ns) if(n.parent == p) return;
    { Sut s; ns[p].h.appendChild(ns[c].h); }
    ns[c].parent = p;
  }
  void init(int i) {
    EvM& e = es[i]; e.type = small(2); e.bubbles = coin(); e.cancel = coin();
    Sut s;
    if(e.mut) MutEvent(e.h).initMutationEvent(TYPES[e.type], e.bubbles, e.cancel, ns[0].h, "o", "n", "at", MutEvent::ADDITION);
    else e.h.initEvent(TYPES[e.type], e.bubbles, e.cancel);
  }
  int pickTarget() { std::vector<int> c; for(int i = 0; i < (int)ns.size(); ++i) if(ns[i].target) c.push_back(i); return c.empty() ? -1 : pick(c); }
  int pickLis() { std::vector<int> c; for(int i = 0; i < (int)ls.size(); ++i) if(!ls[i]->dead) c.push_back(i); if(c.empty()) { newLis(); return ls.size() - 1; } return pick(c); }
  void opAdd(int at = -1) {
    int n = at >= 0 && coin() ? at : pickTarget(); if(n < 0) return;
    RegM r{small(2), pickLis(), coin()};
    if(removed.count(std::make_tuple(n, r.type, r.lis, r.cap))) return;
    note("add %s to %s for %s, listener %d", r.cap ? "capturer" : "listener", ns[n].name.c_str(), TYPES[r.type], r.lis);
    { Sut s; ns[n].t.addEventListener(TYPES[r.type], *ls[r.lis], r.cap); }
    for(auto& x : ns[n].regs) if(x.type == r.type && x.lis == r.lis && x.cap == r.cap) { probe("added twice"); return; }
    ns[n].regs.push_back(r);
  }
  void opRemove(int at = -1) {
    int n = at >= 0 && coin() ? at : pickTarget(); if(n < 0) return;
    RegM r{(int)choose(3), 0, false};
    std::vector<RegM> c; for(auto& x : ns[n].regs) c.push_back(x);
    if(!c.empty() && !chance(1, 8)) r = pick(c); else { r.lis = pickLis(); r.cap = coin(); }
    unreg(n, r);
    if(chance(1, 3)) retire(r.lis);
  }
  void unreg(int n, RegM r) {
    note("remove %s from %s for %s, listener %d", r.cap ? "capturer" : "listener", ns[n].name.c_str(), TYPES[r.type], r.lis);
    { Sut s; ns[n].t.removeEventListener(TYPES[r.type], *ls[r.lis], r.cap); }
    for(size_t i = 0; i < ns[n].regs.size(); ++i) { auto& x = ns[n].regs[i]; if(x.type == r.type && x.lis == r.lis && x.cap == r.cap) { ns[n].regs.erase(ns[n].regs.begin() + i); if(!stack.empty()) { removed.insert(std::make_tuple(n, r.type, r.lis, r.cap)); probe("removed during dispatch"); } return; } }
    probe("removed what was not there");
  }
  // the client destroys a listener nothing is registered with any more
  void retire(int l) {
    for(int n = 0; n < (int)ns.size(); ++n) { auto regs = ns[n].regs; for(auto& r : regs) if(r.lis == l) unreg(n, r); }
    ls[l]->dead = true; note("listener %d destroyed", l);
  }
  void opTree() {
    std::vector<int> c; for(int i = 0; i < (int)ns.size(); ++i) if(!ns[i].isDoc && ns[i].h) c.push_back(i);
    if(c.empty()) return;
    int n = pick(c);
    if(ns[n].parent >= 0 && coin()) { note("take %s out", ns[n].name.c_str()); Sut s; ns[ns[n].parent].h.removeChild(ns[n].h); ns[n].parent = -1; }
    else { int p = pickParent(n); if(p >= 0) { note("move %s into %s", ns[n].name.c_str(), ns[p].name.c_str()); attach(n, p); } }
  }
  // --- reference dispatcher -------------------------------------------------------
  void snap(Frame& f, int node, bool cap, int phase) { f.at = node; f.phase = phase; f.snap.clear(); f.idx = 0; for(auto& r : ns[node].regs) if(r.type == es[f.ev].type && r.cap == cap) f.snap.push_back(r); }
  bool next(Frame& f, RegM& out) {
    for(;;) {
      while(f.at >= 0 && f.idx < f.snap.size()) {
        RegM r = f.snap[f.idx++];
        for(auto& x : ns[f.at].regs) if(x.type == r.type && x.lis == r.lis && x.cap == r.cap) { out = r; return true; }
      }
      if(f.stopped) return false;
      int n = f.chain.size(); ++f.step;
      if(f.step < n) snap(f, f.chain[n - 1 - f.step], true, 1);
      else if(f.step == n) snap(f, f.target, false, 2);
      else if(es[f.ev].bubbles && f.step <= 2 * n) snap(f, f.chain[f.step - n - 1], false, 3);
      else return false;
    }
  }
  bool dispatch() {
    std::vector<int> c; for(int i = 0; i < (int)es.size(); ++i) if(!es[i].busy) c.push_back(i);
    if(c.empty()) return false;
    int e = pick(c), t = pickTarget(); if(t < 0) return false;
    Frame f; f.ev = e; f.target = t;
    for(int p = ns[t].parent; p >= 0; p = ns[p].parent) if(ns[p].target) f.chain.push_back(p);
    note("dispatch event %d (%s%s%s) at %s", e, TYPES[es[e].type], es[e].bubbles ? ", bubbles" : "", es[e].cancel ? ", cancelable" : "", ns[t].name.c_str());
    es[e].busy = true; stack.push_back(&f);
    bool threw = false, ret = false;
    Target keep;
    try { Sut s; Target tt = ns[t].t; Event& h = es[e].h; if(choose(4)) { ret = tt.dispatchEvent(h); } else { Event mine(h); ret = tt.dispatchEvent(mine); } }
    catch(const Boom&) { threw = true; }
    stack.pop_back(); es[e].busy = false;
    if(stack.empty()) removed.clear();
    if(threw) { note("dispatch of event %d thrown out of", e); sh = sh * 31 + 99; return true; }
    RegM r;
    if(next(f, r)) die("listener-missed", "listener " + std::to_string(r.lis) + " on " + ns[f.at].name + " (phase " + std::to_string(f.phase) + ") was not called");
    if(ret != !f.prevented) die("wrong-answer", S("dispatchEvent answered ") + (ret ? "true" : "false") + " though a listener " + (f.prevented ? "prevented" : "did not prevent") + " the default action");
    note("dispatch of event %d done", e);
    log("d %d %d", e, (int)ret);
    return false;
  }
  void called(Lis& l, Event& ev) {
    if(stack.empty()) die("called-outside", "a listener was called with no dispatch going on");
    Frame& f = *stack.back();
    if(l.dead) die("called-after-removal", "listener " + std::to_string(l.id) + " was called after it had been removed and destroyed");
    RegM r;
    if(!next(f, r)) die("extra-call", "listener " + std::to_string(l.id) + " was called; no call was left to make");
    S type, relevant; int phase; const void *tgt, *cur; bool b, ca;
    { Sut s; S t = ev.getType(); { Shield q; type = t; } phase = ev.getEventPhase(); tgt = ev.getTarget().Impl(); cur = ev.getCurrentTarget().Impl(); b = ev.getBubbles(); ca = ev.getCancelable(); }
    std::ostringstream w, g;
    auto name = [&](const void* p) { for(auto& n : ns) if(n.raw && n.raw == p) return n.name; return S("?"); };
    w << "listener " << r.lis << " on " << ns[f.at].name << " phase " << f.phase << " target " << ns[f.target].name << " type " << TYPES[es[f.ev].type] << es[f.ev].bubbles << es[f.ev].cancel;
    g << "listener " << l.id << " on " << name(cur) << " phase " << phase << " target " << name(tgt) << " type " << type << b << ca;
    note("  %s", g.str().c_str()); log("c %d %d %d", r.lis, f.at, f.phase);
    if(w.str() != g.str()) die("wrong-call", "expected call: " + w.str() + "\ncall made: " + g.str());
    if(es[f.ev].mut && !gone) { Sut s; MutEvent m(ev); if(m.getAttrName() != "at" || m.getPrevValue() != "o" || m.getNextValue() != "n" || m.getAttrChange() != MutEvent::ADDITION || !(m.getRelatedNode() == ns[0].h)) { Shield q; die("event-data", "the event's data changed"); } }
    sh = sh * 31 + f.phase * 7 + stack.size(); ++total;
    if(gone) return;
    int acts = chance(1, 2) ? range(1, 3) : 0;
    for(int i = 0; i < acts && budget > 0 && !gone; ++i, --budget) act(f, l, ev);
  }
  void act(Frame& f, Lis& l, Event& ev) {
    int a = choose(20); sh = sh * 31 + a;
    switch(a) {
      case 0: case 1: case 2: { note("  stopPropagation"); Sut s; ev.stopPropagation(); f.stopped = true; fault("stopPropagation"); break; }
      case 3: { note("  preventDefault"); Sut s; ev.preventDefault(); if(es[f.ev].cancel) f.prevented = true; break; }
      case 4: case 5: case 6: opAdd(f.at); fault("listener adds"); break;
      case 7: case 8: opRemove(f.at); fault("listener removes"); break;
      case 9: case 10: { auto regs = ns[f.at].regs; bool r = false; for(auto& x : regs) if(x.lis == l.id) { unreg(f.at, x); r = true; break; } if(r) fault("listener removes itself"); break; }
      case 11: case 12: opTree(); fault("tree changed during dispatch"); break;
      case 13: case 14: if(stack.size() < 3) { fault("nested dispatch"); if(dispatch() && coin()) { note("  (let through)"); throw Boom(); } } break;
      case 15: case 16: note("  throws"); fault("listener throws"); throw Boom();
      case 17: retire(l.id); fault("listener destroys itself"); break;
      case 18: if(stack.size() == 1 && chance(1, 3)) { note("  drops every handle"); fault("all handles dropped during dispatch"); gone = true; Sut s; for(auto& n : ns) { n.h = Node(); n.t = Target(); } for(auto& e : es) e.h = Event(); } break;
      case 19: { note("  collect the listeners of a type"); for(int n = 0; n < (int)ns.size(); ++n) { auto regs = ns[n].regs; for(auto& x : regs) if(x.type == es[f.ev].type) unreg(n, x); } fault("all listeners removed"); break; }
    }
  }
  void run() {
    build();
    int n = range(1, 14);
    for(int i = 0; i < n && !gone; ++i) {
      budget = 12;
      switch(choose(8)) {
        case 0: opAdd(); break;
        case 1: opRemove(); break;
        case 2: opTree(); break;
        case 3: { std::vector<int> c; int e = choose(es.size()); init(e); break; }
        default: dispatch();
      }
    }
    // whatever has happened, a plain dispatch now meets exactly the listeners registered now
    budget = 0;
    if(!gone) { dispatch(); dispatch(); }
    if(total) nontrivial();
    shape(sh);
    { Sut s; for(auto& n : ns) { n.h = Node(); n.t = Target(); } for(auto& e : es) e.h = Event(); }
  }
};
void Lis::handleEvent(Event& e) { Shield s; ++calls; w.called(*this, e); }

void p14() { World w; w.run(); }
sim::Reg r14("P14", p14, nullptr, 5000000);
}
