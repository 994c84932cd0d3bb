// Lists, maps and walkers obtained at some point of a history and looked at later, against the model's current trees.
#ifndef VERIF_DOM_VIEWS_HPP
#define VERIF_DOM_VIEWS_HPP
#include "dom_model.hpp"
#include <DOM/Traversal/TreeWalker.hpp>
#include <DOM/Traversal/NodeFilter.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/DocumentTraversalImpl.hpp>
namespace dm {
namespace T = Arabica::DOM::Traversal;
typedef T::NodeFilter<S> Filt;
struct Thrown { };

inline int decide(int salt, int type, const S& name, const S& value) {
  uint64_t h = hash_str(name + "|" + std::to_string(type) + "|" + (salt & 4 ? value : S()) + "|" + std::to_string(salt)); 
  unsigned r = (h >> 13) % 10;
  return salt & 1 ? (r < 5 ? Filt::FILTER_ACCEPT : r < 8 ? Filt::FILTER_SKIP : Filt::FILTER_REJECT) : (r < 5 ? Filt::FILTER_ACCEPT : Filt::FILTER_SKIP);
}
struct SimFilter : Filt {
  int salt; mutable int fuse = -1;
  SimFilter(int s) : salt(s) {}
  virtual ~SimFilter() {}
  virtual Result acceptNode(const NodeT& n) const { Shield sh; if(fuse >= 0 && fuse-- == 0) { fault("filter-throws"); throw Thrown(); } return (Result)decide(salt, n.getNodeType(), n.getNodeName(), n.getNodeValue()); }
};

// the DOM Traversal definition, on the model
struct RefWalker {
  M *root, *cur; unsigned long show; int salt; bool expand;
  int filter(M* n) const { if(!(show & (1ul << (n->type - 1)))) return Filt::FILTER_SKIP; return salt < 0 ? Filt::FILTER_ACCEPT : decide(salt, n->type, n->name, Forest::valueOf(n)); }
  std::vector<M*> kids(M* n) const { return !expand && n->type == B::ENTITY_REFERENCE_NODE ? std::vector<M*>() : n->ch; }
  M* par(M* n) const { return n->parent; }
  // the logical view: visible nodes below n (not n), in document order, with rejected subtrees left out; depth 1 = no visible ancestor below n
  void below(M* n, bool childrenOnly, std::vector<M*>& out) const {
    for(M* c : kids(n)) { int f = filter(c); if(f == Filt::FILTER_ACCEPT) { out.push_back(c); if(!childrenOnly) below(c, false, out); } else if(f == Filt::FILTER_SKIP) below(c, childrenOnly, out); }
  }
  M* visibleParent(M* n) const { for(M* p = n; p && p != root;) { p = par(p); if(p && filter(p) == Filt::FILTER_ACCEPT) return p; } return 0; }
  // is the current node somewhere the definition speaks about plainly?
  bool plain() const {
    if(!Forest::within(cur, root)) return false;
    for(M* p = cur; ; p = p->parent) { if(p != root && filter(p) == Filt::FILTER_REJECT) return false; if(p != cur && !expand && p->type == B::ENTITY_REFERENCE_NODE) return false; if(p == root) return true; }
  }
  M* logicalTop() const { for(M* p = cur; p != root;) { p = par(p); if(p == root || filter(p) == Filt::FILTER_ACCEPT) return p; } return 0; }
  M* move(int k) const {
    std::vector<M*> v;
    switch(k) {
      case 0: return visibleParent(cur);
      case 1: below(cur, true, v); return v.empty() ? 0 : v.front();
      case 2: below(cur, true, v); return v.empty() ? 0 : v.back();
      case 3: case 4: { // siblings: the visible children of the nearest visible ancestor (or the root)
        if(cur == root) return 0;
        M* top = logicalTop(); bool seen = false; M* last = 0; M* found = 0;
        std::function<void(M*)> go = [&](M* n) { for(M* c : kids(n)) { if(c == cur) { seen = true; continue; } int f = filter(c);
          if(f == Filt::FILTER_ACCEPT) { if(!seen) last = c; else if(!found) found = c; } else if(f == Filt::FILTER_SKIP) go(c); } };
        go(top); return k == 3 ? last : found;
      }
      case 5: { // previousNode
        if(cur == root) return 0;
        M* last = filter(root) == Filt::FILTER_ACCEPT ? root : 0; bool done = false;
        std::function<void(M*)> go = [&](M* n) { for(M* c : kids(n)) { if(done) return; if(c == cur) { done = true; return; } int f = filter(c); if(f == Filt::FILTER_ACCEPT) last = c; if(f != Filt::FILTER_REJECT) go(c); } };
        go(root); return last;
      }
      case 6: { // nextNode
        bool seen = cur == root; M* found = 0;
        std::function<void(M*)> go = [&](M* n) { for(M* c : kids(n)) { if(found) return; int f = c == cur ? (int)Filt::FILTER_SKIP : filter(c); if(seen && f == Filt::FILTER_ACCEPT) { found = c; return; } if(c == cur) seen = true; if(f != Filt::FILTER_REJECT) go(c); } };
        go(root); return found;
      }
    }
    return 0;
  }
};

struct View {
  int kind; M* root; S a, b; D::NodeList<S> list; D::NamedNodeMap<S> map;
  T::TreeWalker<S> walker; std::unique_ptr<SimFilter> filter; RefWalker ref;
};

struct Views {
  Forest& f; std::vector<std::unique_ptr<View>> vs;
  Views(Forest& ff) : f(ff) {}
  [[noreturn]] void die(const S& check, const View& v, const S& what, const S& msg) {
    static const char* n[] = {"childNodes", "getElementsByTagName", "getElementsByTagNameNS", "attributes", "TreeWalker"};
    sim::fail(check, S(n[v.kind]) + " of " + f.show(v.root) + (v.kind == 1 ? " " + v.a : v.kind == 2 ? " {" + v.a + "}" + v.b : S()) + " after [" + what + "]: " + msg);
  }
  template<class F> M* pick(F p) { std::vector<M*> v; for(auto& m : f.all) if(m->h != 0 && m->type != B::ENTITY_NODE && p(m.get())) v.push_back(m.get()); return v.empty() ? 0 : v[choose((uint32_t)v.size())]; }

  void elements(M* n, const View& v, std::vector<M*>& out) {
    for(M* c : n->ch) {
      if(c->type == B::ELEMENT_NODE) {
        bool hit = v.kind == 1 ? v.a == "*" || v.a == c->name : (v.a == "*" || v.a == c->ns) && (v.b == "*" || (!c->local.empty() && v.b == c->local));
        if(hit) out.push_back(c);
      }
      if(c->type == B::ELEMENT_NODE || c->type == B::ENTITY_REFERENCE_NODE) elements(c, v, out);
    }
  }
  std::vector<M*> want(const View& v) { std::vector<M*> w; if(v.kind == 0) w = v.root->ch; else if(v.kind == 3) w = v.root->attrs; else elements(v.root, v, w); return w; }

  void make() {
    std::unique_ptr<View> v(new View); v->kind = choose(5);
    auto elOrDoc = [](M* m) { return m->type == B::ELEMENT_NODE || m->type == B::DOCUMENT_NODE; };
    switch(v->kind) {
      case 0: v->root = pick([](M*) { return true; }); if(!v->root) return; { Sut s; v->list = v->root->h.getChildNodes(); } break;
      case 1: { v->root = pick(elOrDoc); static const char* n[] = {"e0", "e1", "p:a", "*", "e2", "q:a", "p2:a"}; v->a = n[choose(7)]; Sut s; v->list = v->root->type == B::ELEMENT_NODE ? Elem(v->root->h).getElementsByTagName(v->a) : Doc(v->root->h).getElementsByTagName(v->a); break; }
      case 2: { v->root = pick(elOrDoc); static const char* ns[] = {"u1", "*", "", "u2"}; static const char* l[] = {"a", "*", "b", "e0", "e5"}; v->a = ns[choose(4)]; v->b = l[choose(5)];
        Sut s; v->list = v->root->type == B::ELEMENT_NODE ? Elem(v->root->h).getElementsByTagNameNS(v->a, v->b) : Doc(v->root->h).getElementsByTagNameNS(v->a, v->b); break; }
      case 3: v->root = pick([](M* m) { return m->type == B::ELEMENT_NODE; }); if(!v->root) return; { Sut s; v->map = v->root->h.getAttributes(); } break;
      case 4: {
        v->root = pick([](M* m) { return !Forest::childless(m) && m->type != B::ATTRIBUTE_NODE; });
        static const unsigned long sh[] = {T::SHOW_ALL, T::SHOW_ELEMENT, T::SHOW_ELEMENT | T::SHOW_TEXT, T::SHOW_TEXT | T::SHOW_COMMENT | T::SHOW_CDATA_SECTION, T::SHOW_ELEMENT | T::SHOW_ENTITY_REFERENCE, T::SHOW_ALL & ~(unsigned long)T::SHOW_ELEMENT};
        RefWalker r; r.root = r.cur = v->root; r.show = sh[choose(6)]; r.salt = coin() ? -1 : (int)choose(64); r.expand = coin(); v->ref = r;
        if(r.salt >= 0) v->filter.reset(new SimFilter(r.salt));
        Sut s; T::DocumentTraversal<S> t = T::make_document_traversal_t<S, Arabica::default_string_adaptor<S>>();
        v->walker = v->filter ? t.createTreeWalker(v->root->h, r.show, *v->filter, r.expand) : t.createTreeWalker(v->root->h, r.show, r.expand);
        break;
      }
    }
    vs.push_back(std::move(v));
  }
  void one(View& v, const S& what) {
    if(v.kind == 4) { walk(v, what); return; }
    std::vector<M*> w = want(v); unsigned n = (unsigned)w.size(), len = 0; bool lenFirst = coin();
    // ask for an item before the length half of the time: either must bring the list up to date
    auto item = [&](unsigned i) { Sut s; return v.kind == 3 ? v.map.item(i) : v.list.item(i); };
    auto length = [&] { Sut s; return v.kind == 3 ? v.map.getLength() : v.list.getLength(); };
    if(lenFirst && (len = length()) != n) die("stale-view", v, what, "length " + std::to_string(len) + ", the tree has " + std::to_string(n));
    std::vector<unsigned> order; for(unsigned i = 0; i < n; ++i) order.push_back(i); order.push_back(n); order.push_back(n + 1 + choose(5)); order.push_back(0xffffffffu);
    if(coin()) std::reverse(order.begin(), order.end());
    std::set<M*> seen;
    for(unsigned i : order) {
      Node r = item(i);
      if(i >= n) { if(r != 0) die("stale-view", v, what, "item(" + std::to_string(i) + ") of " + std::to_string(n) + " is not null"); continue; }
      if(v.kind == 3) { // no order promised
        M* m = 0; for(M* c : w) if(c->h != 0 && c->h == r) m = c; if(!m || !seen.insert(m).second) die("stale-view", v, what, "item(" + std::to_string(i) + ") is not one of the attributes, or repeated");
        continue;
      }
      f.cmp.clear(); if(!f.same(v.root, "item(" + std::to_string(i) + ")", w[i], r)) die("stale-view", v, what, f.cmp);
    }
    if(v.kind == 3) for(M* a : w) {
      Sut s; f.cmp.clear();
      if(!f.same(v.root, "getNamedItem " + a->name, Forest::byName(v.root, a->name), v.map.getNamedItem(a->name))) die("stale-view", v, what, f.cmp);
      S l = a->local.empty() ? a->name : a->local;
      if(!f.same(v.root, "getNamedItemNS " + l, Forest::byNS(v.root, a->ns, l), v.map.getNamedItemNS(a->ns, l))) die("stale-view", v, what, f.cmp);
    }
    if(v.kind == 3 && !Forest::byName(v.root, "zz")) { Sut s; if(v.map.getNamedItem("zz") != 0 || v.map.getNamedItemNS("u1", "zz") != 0) die("stale-view", v, what, "getNamedItem of an absent attribute is not null"); }
    len = length(); if(len != n) die("stale-view", v, what, "length " + std::to_string(len) + ", the tree has " + std::to_string(n));
    shape(hash_str(std::to_string(v.kind) + v.a + v.b) + n);
  }
  void walk(View& v, const S& what) {
    static const char* names[] = {"parentNode", "firstChild", "lastChild", "previousSibling", "nextSibling", "previousNode", "nextNode"};
    int moves = 1 + choose(4);
    while(moves--) {
      int k = choose(8); Node r; bool thrown = false;
      { Sut s; f.cmp.clear(); if(!f.same(v.root, "getCurrentNode", v.ref.cur, v.walker.getCurrentNode())) { Shield sh; die("walker", v, what, f.cmp); } }
      if(k == 7) {
        M* n = chance(1, 4) ? pick([](M* m) { return m->type != B::ATTRIBUTE_NODE; }) : 0; if(!n) { std::vector<M*> in; for(auto& m : f.all) if(m->h != 0 && m->type != B::ATTRIBUTE_NODE && m->type != B::ENTITY_NODE && Forest::within(m.get(), v.root)) in.push_back(m.get()); n = in[choose((uint32_t)in.size())]; }
        Sut s; v.walker.setCurrentNode(n->h); v.ref.cur = n; continue;
      }
      if(v.filter && chance(1, 10)) v.filter->fuse = choose(3);
      try { Sut s; switch(k) { case 0: r = v.walker.parentNode(); break; case 1: r = v.walker.firstChild(); break; case 2: r = v.walker.lastChild(); break; case 3: r = v.walker.previousSibling(); break; case 4: r = v.walker.nextSibling(); break; case 5: r = v.walker.previousNode(); break; case 6: r = v.walker.nextNode(); } }
      catch(const Thrown&) { thrown = true; }
      if(v.filter) v.filter->fuse = -1;
      if(thrown) continue; // the current node must not have moved: checked next time round
      bool plain = v.ref.plain(); M* w = plain ? v.ref.move(k) : 0;
      log("%s from %s", names[k], f.show(v.ref.cur).c_str());
      shape((uint64_t)k * 4096 + (uint64_t)(w != 0) * 2048 + v.ref.cur->type * 32 + v.root->type);
      if(!plain) { // outside the root or inside something rejected: any answer, but it must be where the walker now is
        Node c; { Sut s; c = v.walker.getCurrentNode(); }
        M* m = 0; for(auto& x : f.all) if(x->h != 0 && x->h == c) m = x.get();
        if(!m || (r != 0 && c != r)) die("walker", v, what, S(names[k]) + " went nowhere known");
        v.ref.cur = m; probe("walker-off-the-view"); continue;
      }
      f.cmp.clear();
      if(!f.same(v.root, S(names[k]) + " from " + f.show(v.ref.cur) + " (show " + std::to_string(v.ref.show) + ", filter " + std::to_string(v.ref.salt) + ", expand " + std::to_string(v.ref.expand) + ")", w, r)) die("walker", v, what, f.cmp);
      if(w) v.ref.cur = w;
    }
  }
  void ids(const S& what) {
    M* d = f.docs[choose((uint32_t)f.docs.size())]; static const char* vals[] = {"i0", "i1", "v", "text", "nosuch"}; S id = vals[choose(5)];
    Node r; { Sut s; r = Doc(d->h).getElementById(id); }
    std::vector<M*> must, may;
    for(auto& m : f.all) if(m->type == B::ELEMENT_NODE && m->doc == d && Forest::attached(m.get())) if(M* a = Forest::byName(m.get(), "id")) if(a->local.empty() || a->ns.empty()) if(Forest::valueOf(a) == id) (f.dtd[d].ids.count(m->name) ? must : may).push_back(m.get());
    bool ok = r == 0 ? must.empty() : false;
    if(r != 0) for(auto* l : {&must, &may}) for(M* m : *l) if(m->h == r) ok = true;
    if(!ok) sim::fail("stale-view", "getElementById " + id + " of " + f.show(d) + " after [" + what + "]: " + (r == 0 ? S("null, though ") + f.show(must[0]) + " has that ID" : S("an element which is not in the document with that ID: ") + S(r.getNodeName())));
    if(r != 0) probe("id-found");
  }
  void step(const S& what) {
    int k = choose(6);
    if(vs.empty() || k == 0 || k == 1) { if(vs.size() < 12) make(); return; }
    if(k == 2) { ids(what); return; }
    if(k == 3 && vs.size() > 4 && chance(1, 4)) { Sut s; vs.erase(vs.begin() + choose((uint32_t)vs.size())); return; }
    one(*vs[choose((uint32_t)vs.size())], what);
  }
  void check(const S& what) { for(auto& v : vs) if(chance(2, 3)) one(*v, what); if(coin()) ids(what); }
};
} // namespace dm
#endif
