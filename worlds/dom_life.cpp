// P13: handles copied, assigned, dropped and passed about in drawn orders over
// a heap that poisons what is freed; nothing held may change or disappear, and
// nothing may stay behind.  The drawn script is run three times in one process
// so that what the library sets up once is told from what it leaves behind.
#include "events.hpp"
#include <SAX/XMLReader.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/TreeWalker.hpp>
#include <sstream>
#include <memory>
#include <set>
using namespace sim;
namespace {
using namespace ev;
typedef D::Document<S> Doc; typedef D::Element<S> El; typedef D::Attr<S> At; typedef D::NodeList<S> List; typedef D::NamedNodeMap<S> Map;
typedef D::Traversal::TreeWalker<S> Walker; typedef D::Node_base B;
typedef Arabica::SAX2DOM::Parser<S> Parser;

const char* TEXTS[] = {
  "<!DOCTYPE r [<!ATTLIST e0 d0 CDATA 'dv'><!ENTITY ent 'x<e2>y</e2>z'><!NOTATION n0 SYSTEM 'u'>]><r a0='1'><e0 id='i0'>one&ent;two</e0><!--c--><e1><?pi d?></e1></r>",
  "<r><e0>t</e0><e1 a='1' b='2'/></r>",
  "<r><e0>broken", "<r></s>", "", "<!DOCTYPE r [<!ENTITY ent 'x"};
struct Thrower : Arabica::SAX::ErrorHandler<S> {
  bool on = false;
  typedef Arabica::SAX::SAXParseException<S> E;
  void warning(const E&) override {} void error(const E&) override { if(on) throw 1; } void fatalError(const E&) override { if(on) throw 1; }
};
enum Kind { NONE, NODE, DOC, ELEM, LIST, MAP, WALK, EVENT, TARGET };
struct Slot {
  Kind k = NONE; Node n; Doc d; El e; List l; Map m; mutable Walker w; Event ev; Target t; S expect;
  void clear() { k = NONE; n = Node(); d = Doc(); e = El(); l = List(); m = Map(); w = Walker(); ev = Event(); t = Target(); expect.clear(); }
  Node node() const { return k == NODE ? n : k == DOC ? Node(d) : k == ELEM ? Node(e) : k == WALK ? w.getCurrentNode() : Node(); }
};
S showNode(const Node& n, int depth = 0) {
  if(!n) return "null";
  std::ostringstream o; int t = n.getNodeType();
  o << t << ":" << n.getNodeName();
  if(t != B::ELEMENT_NODE && t != B::DOCUMENT_NODE) o << "=" << n.getNodeValue();
  if(t == B::ELEMENT_NODE) { Map m = n.getAttributes(); o << "{"; for(unsigned i = 0; i < m.getLength(); ++i) o << m.item(i).getNodeName() << "=" << m.item(i).getNodeValue() << " "; o << "}"; }
  if(n.hasChildNodes()) { o << "("; for(Node c = n.getFirstChild(); c; c = c.getNextSibling()) o << showNode(c, depth + 1) << " "; o << ")"; }
  return o.str();
}
S showWhole(const Node& n) {
  if(!n) return "null";
  S r = showNode(n); Node p = n.getParentNode(); r += " in " + (p ? p.getNodeName() : S("-"));
  Doc d = n.getNodeType() == B::DOCUMENT_NODE ? Doc(n) : n.getOwnerDocument();
  if(d) r += " of " + showNode(d);
  return r;
}
S describe(const Slot& s) {
  switch(s.k) {
    case NONE: return "none";
    case NODE: return showWhole(s.n);
    case DOC: return showWhole(s.d);
    case ELEM: return showWhole(s.e);
    case LIST: { S r = "list"; for(unsigned i = 0; i < s.l.getLength(); ++i) r += " " + showNode(s.l.item(i)); return r; }
    case MAP: { S r = "map"; for(unsigned i = 0; i < s.m.getLength(); ++i) r += " " + showNode(s.m.item(i)); return r; }
    case WALK: return "walk " + showWhole(s.w.getRoot()) + " at " + showWhole(s.w.getCurrentNode());
    case EVENT: { S r = "event " + s.ev.getType(); if(MutEventOk(s.ev)) r += " rel " + showWhole(MutEvent(s.ev).getRelatedNode()); return r; }
    case TARGET: { D::Node_impl<S, A>* n = dynamic_cast<D::Node_impl<S, A>*>(s.t.Impl()); return "target " + (n ? showWhole(Node(n)) : S("?")); }
  }
  return "";
}
struct OpN { int op, a, b, c, d; };
struct Runner : Listener {
  std::vector<std::unique_ptr<Slot>> sl; std::unique_ptr<Parser> parser; Thrower thrower; int serial = 0; uint64_t sh = 0; int maxLive = 0;
  Slot& at(int i) { return *sl[(unsigned)i % sl.size()]; }
  void put(Slot& s, const Node& n, int how) {
    if(!n) { s.clear(); return; }
    int t = n.getNodeType();
    if(how % 3 == 1 && t == B::DOCUMENT_NODE) { s.d = Doc(n); s.k = DOC; s.n = Node(); s.e = El(); }
    else if(how % 3 == 1 && t == B::ELEMENT_NODE) { s.e = El(n); s.k = ELEM; s.n = Node(); s.d = Doc(); }
    else { s.n = n; s.k = NODE; s.d = Doc(); s.e = El(); }
    s.l = List(); s.m = Map(); s.w = Walker(); s.ev = Event(); s.t = Target();
  }
  Doc docOf(const Node& n) { if(!n) return Doc(); if(n.getNodeType() == B::DOCUMENT_NODE) return Doc(n); return n.getOwnerDocument(); }
  S nm(const char* p) { return p + std::to_string(serial++ % 7); }
  void handleEvent(Event& e) override { Target t = e.getTarget(); Target c = e.getCurrentTarget(); (void)t; (void)c; }

  Node related(const Node& n, int how) {
    switch(how % 12) {
      case 0: return n.getParentNode(); case 1: return n.getFirstChild(); case 2: return n.getLastChild(); case 3: return n.getNextSibling();
      case 4: return n.getPreviousSibling(); case 5: return n.getOwnerDocument(); case 6: { Doc d = docOf(n); return d ? Node(d.getDocumentElement()) : Node(); }
      case 7: { Doc d = docOf(n); return d ? Node(d.getDoctype()) : Node(); }
      case 8: if(n.getNodeType() != B::ELEMENT_NODE) return Node(); { Map m = n.getAttributes(); return m.getLength() ? m.item(0) : Node(); }
      case 9: if(n.getNodeType() == B::ATTRIBUTE_NODE) return At(n).getOwnerElement(); return Node();
      case 10: { List l = n.getChildNodes(); return l.getLength() ? l.item(l.getLength() - 1) : Node(); }
      default: { Doc d = docOf(n); return d && d.getDoctype() ? d.getDoctype().getEntities().item(0) : Node(); }
    }
  }
  void walkThrow(int depth, const Node& n) { Node local = n; Node up = n ? n.getParentNode() : Node(); if(depth == 0) throw 1; walkThrow(depth - 1, up ? up : local); }
  bool within(Node n, const Node& top) { for(; n; n = n.getParentNode()) if(n == top) return true; return false; }

  // returns whether trees may have changed
  bool exec(const OpN& o) {
    Slot& s = at(o.a); Slot& t = at(o.b);
    switch(o.op) {
      case 0: {                                                     // new document
        D::DOMImplementation<S> di = SD::DOMImplementation<S>::getDOMImplementation();
        D::DocumentType<S> dt;
        bool useDt = o.c & 1; Node held = t.node();
        if(useDt) { if(held && held.getNodeType() == B::DOCUMENT_TYPE_NODE) dt = D::DocumentType<S>(held); else dt = di.createDocumentType("r", "p", "s"); }
        held = Node();
        Doc d = di.createDocument(o.d % 4 == 2 ? S("") : S("u"), o.d % 4 == 0 ? S("") : o.d % 4 == 1 ? S("p:r") : o.d % 4 == 2 ? S("p:r") : S("a:b:c"), dt);
        put(s, d, o.c >> 1); return true;
      }
      case 1: {                                                     // document type that has no document
        D::DocumentType<S> dt = SD::DOMImplementation<S>::getDOMImplementation().createDocumentType("r", "p", "s");
        if(o.c % 4 == 1) { s.clear(); s.m = dt.getEntities(); s.k = MAP; }
        else if(o.c % 4 == 2) { s.clear(); s.l = dt.getChildNodes(); s.k = LIST; }
        else if(o.c % 4 == 3) put(s, dt.cloneNode(true), 0);
        else put(s, dt, 0);
        return true;
      }
      case 2: {                                                     // parse
        if(!parser || o.d & 1) parser.reset(new Parser);
        thrower.on = o.d & 2; if(o.d & 4) parser->setErrorHandler(thrower);
        std::istringstream is(TEXTS[(unsigned)o.c % 6]); Arabica::SAX::InputSource<S> in(is);
        if(o.d & 8) s.clear();
        try { parser->parse(in); } catch(int) { fault("handler threw during parse"); }
        put(s, parser->getDocument(), o.d >> 4);
        if(o.d & 16) parser.reset();
        else if(o.d & 32) parser->reset();
        return true;
      }
      case 3: { Node n = s.node(); if(!n) return false; n = related(n, o.c); put(t, n, o.d); return false; }
      case 4: {                                                     // assignment, also to itself
        if(s.k == NONE) { t.clear(); return false; }
        t.n = s.n; t.d = s.d; t.e = s.e; t.l = s.l; t.m = s.m; t.w = s.w; t.ev = s.ev; t.t = s.t; t.k = s.k; if(&s == &t) probe("self assignment"); return false;
      }
      case 5: s.clear(); return false;
      case 6: {                                                     // assignment of what is reachable only through the handle itself
        if(s.k == NODE) { Node& n = s.n; D::Node_impl<S, A>* raw = *(&n) ? n.underlying_impl() : 0; (void)raw; n = o.c & 1 ? n.getFirstChild() : o.c & 2 ? Node(n.getOwnerDocument()) : n.getParentNode(); if(!n) s.clear(); }
        else if(s.k == DOC) { Node e = s.d.getDocumentElement(); if(e) put(s, e, o.c); }
        else if(s.k == LIST) { s.l = s.l.getLength() ? s.l.item(0).getChildNodes() : s.l; }
        else if(s.k == MAP) { if(s.m.getLength() && s.m.item(0).getNodeType() == B::ATTRIBUTE_NODE) { At a(s.m.item(0)); s.m = a.getOwnerElement().getAttributes(); } }
        else if(s.k == WALK) { Node n = s.w.nextNode(); if(n && (o.c & 1)) put(s, n, o.c >> 1); return true; }
        return false;
      }
      case 7: case 8: {                                             // create
        Doc d = docOf(s.node()); if(!d) return false;
        Node n;
        switch((unsigned)o.c % 10) {
          case 0: case 1: n = d.createElement(nm("e")); break; case 2: n = d.createTextNode(nm("t")); break; case 3: n = d.createComment("c"); break;
          case 4: n = d.createAttribute(nm("a")); break; case 5: n = d.createDocumentFragment(); break; case 6: n = d.createEntityReference("ent"); break;
          case 7: n = d.createElementNS("u", "p:e"); break; case 8: n = d.createElement("<bad"); break; case 9: n = d.createProcessingInstruction("p", "d"); break;
        }
        put(t, n, o.d); return true;
      }
      case 9: case 10: case 11: {                                   // put somewhere
        Node p = s.node(), n = t.node(); if(!p || !n) return false;
        if(n.getNodeType() == B::DOCUMENT_TYPE_NODE || n.getNodeType() == B::DOCUMENT_NODE) return false;
        if(o.d & 1) t.clear();
        switch((unsigned)o.c % 4) { case 0: case 1: p.appendChild(n); break; case 2: p.insertBefore(n, p.getFirstChild()); break; case 3: if(p.hasChildNodes()) { Node old = p.replaceChild(n, p.getFirstChild()); if(o.d & 2) put(t, old, o.d >> 2); } break; }
        return true;
      }
      case 12: {                                                    // take out
        Node n = s.node(); if(!n) return false; Node p = n.getParentNode(); if(!p || n.getNodeType() == B::DOCUMENT_TYPE_NODE) return false;
        Node r = p.removeChild(n); if(o.c & 1) s.clear(); else put(t, r, o.d); return true;
      }
      case 13: {                                                    // attributes
        Node n = s.node(); if(!n || n.getNodeType() != B::ELEMENT_NODE) return false; El e(n);
        switch((unsigned)o.c % 6) {
          case 0: e.setAttribute(nm("a"), "v"); break; case 1: e.removeAttribute(nm("a")); break;
          case 2: { Node a = t.node(); if(a && a.getNodeType() == B::ATTRIBUTE_NODE) { At old = e.setAttributeNode(At(a)); if(o.d & 1) put(t, old, o.d >> 1); } break; }
          case 3: { At a = e.getAttributeNode(nm("a")); if(a) { At r = e.removeAttributeNode(a); put(t, r, o.d); } break; }
          case 4: { Map m = e.getAttributes(); if(m.getLength()) { Node r = m.removeNamedItem(m.item(0).getNodeName()); put(t, r, o.d); } break; }
          case 5: e.setAttributeNS("u", "p:q", "w"); break;
        }
        return true;
      }
      case 14: { Node n = s.node(); if(!n) return false; int ty = n.getNodeType(); if(ty == B::DOCUMENT_TYPE_NODE) return false; put(t, n.cloneNode(o.c & 1), o.d); return true; }
      case 15: { Doc d = docOf(s.node()); Node n = t.node(); if(!d || !n) return false; Node r = d.importNode(n, o.c & 1); put(o.d & 1 ? s : t, r, o.d >> 1); return true; }
      case 16: {                                                    // lists and maps
        Node n = s.node(); if(!n) return false; Slot& to = at(o.c); Slot nw;
        switch((unsigned)o.d % 6) {
          case 0: nw.l = n.getChildNodes(); nw.k = LIST; break;
          case 1: { Doc d = docOf(n); if(!d) return false; nw.l = d.getElementsByTagName("*"); nw.k = LIST; break; }
          case 2: if(n.getNodeType() != B::ELEMENT_NODE) return false; nw.l = El(n).getElementsByTagNameNS("*", "e"); nw.k = LIST; break;
          case 3: if(n.getNodeType() != B::ELEMENT_NODE) return false; nw.m = n.getAttributes(); nw.k = MAP; break;
          case 4: { Doc d = docOf(n); if(!d || !d.getDoctype()) return false; nw.m = d.getDoctype().getEntities(); nw.k = MAP; break; }
          case 5: { Doc d = docOf(n); if(!d || !d.getDoctype()) return false; nw.m = d.getDoctype().getNotations(); nw.k = MAP; break; }
        }
        to.clear(); to = nw; return false;
      }
      case 17: {                                                    // from a list, map, walker, event back to nodes
        if(s.k == LIST && s.l.getLength()) put(t, s.l.item((unsigned)o.c % s.l.getLength()), o.d);
        else if(s.k == MAP && s.m.getLength()) put(t, s.m.item((unsigned)o.c % s.m.getLength()), o.d);
        else if(s.k == WALK) put(t, o.c & 1 ? s.w.getRoot() : s.w.getCurrentNode(), o.d);
        else if(s.k == EVENT && MutEventOk(s.ev)) put(t, MutEvent(s.ev).getRelatedNode(), o.d);
        else if(s.k == TARGET) { D::Node_impl<S, A>* n = dynamic_cast<D::Node_impl<S, A>*>(s.t.Impl()); if(n) put(t, Node(n), o.d); }
        return false;
      }
      case 18: {                                                    // walkers
        if(s.k == WALK) { Walker w = s.w; switch((unsigned)o.c % 5) { case 0: w.nextNode(); break; case 1: w.parentNode(); break; case 2: w.firstChild(); break; case 3: { Node n = t.node(); if(n && n.getNodeType() != B::DOCUMENT_TYPE_NODE) w.setCurrentNode(n); break; } case 4: w.previousNode(); break; } return true; }
        Doc d = docOf(s.node()); Node n = s.node(); if(!d || n.getNodeType() == B::ATTRIBUTE_NODE) return false;
        D::Traversal::DocumentTraversal<S> tr = d.createDocumentTraversal();
        Walker w = tr.createTreeWalker(n, 0xffffffff, o.c & 1);
        t.clear(); t.w = w; t.k = WALK; return false;
      }
      case 19: {                                                    // casts, good and bad
        Node n = s.node(); if(!n) return false;
        switch((unsigned)o.c % 5) { case 0: { El e(n); El f; f = e; f = El(f); put(t, f, 1); break; } case 1: { At a(n); break; } case 2: { Doc d(n); put(t, d, 1); break; } case 3: { D::Text<S> x(n); D::CharacterData<S> y(x); y = x; break; } case 4: { D::DocumentFragment<S> f(n); break; } }
        return false;
      }
      case 20: { Node n = s.node(); if(!n) return false;            // only temporaries
        Doc d = docOf(n); if(!d) return false; s.clear(); n = Node();
        S x = d.getOwnerDocument() ? "" : "-"; (void)x;
        Node r = d.getDocumentElement() ? Node(d.getDocumentElement().getFirstChild()) : Node(); d = Doc();
        if(r && r.getParentNode().getOwnerDocument().getDocumentElement().getFirstChild() != r) fail("temporaries", "the first child of the root is another node when reached through temporaries");
        return false;
      }
      case 21: { std::swap(s.n, t.n); std::swap(s.d, t.d); std::swap(s.e, t.e); std::swap(s.l, t.l); std::swap(s.m, t.m); std::swap(s.w, t.w); std::swap(s.ev, t.ev); std::swap(s.t, t.t); std::swap(s.k, t.k); std::swap(s.expect, t.expect); return false; }
      case 22: { std::vector<Node> v; for(auto& x : sl) v.push_back(x->node()); v.insert(v.begin(), s.node()); v.erase(v.begin() + ((unsigned)o.c % v.size())); { std::set<Node> set(v.begin(), v.end()); } Node f = v.empty() ? Node() : v.back(); v.clear(); put(t, f, o.d); return false; }
      case 23: { Node n = s.node(); if(o.d & 1) s.clear(); try { walkThrow(o.c & 3, n); } catch(int) {} return false; }
      case 24: {                                                    // purge what nobody else holds
        Node n = s.node(); if(!n) return false; Node p = n.getParentNode(); if(!p || n.getNodeType() == B::DOCUMENT_TYPE_NODE) return false;
        if(o.c % 4) { Doc d = docOf(n); for(auto& x : sl) { if(within(x->node(), n)) x->clear(); else if(x->k == LIST || x->k == MAP || x->k == WALK || x->k == EVENT || x->k == TARGET) x->clear(); else if(x->node() && x->node().getNodeType() == B::ATTRIBUTE_NODE && within(At(x->node()).getOwnerElement(), n)) x->clear(); else if(inAttr(x->node())) x->clear(); } }
        else { Node other = t.node(); if(!other || within(other, p) || within(p, other)) return false; for(auto& x : sl) if(x->node() == n) x->clear(); p = other; probe("purge of a node that is no child"); }
        p.purgeChild(n); return true;
      }
      case 25: { s.clear(); { PlainDoc* d = o.c & 1 ? new TDoc : new PlainDoc; Doc h(d); Node e = h.createElement("e"); h.appendChild(e); if(o.c & 2) e.appendChild(h.createTextNode("t")); if(o.c & 4) put(s, e, o.d); else { s.t = Target(e); s.k = TARGET; } } return true; }
      case 26: { Node n = t.node(); MutEvent e(new SD::MutationEventImpl<S, A>()); e.initMutationEvent("DOMNodeInserted", o.c & 1, true, n, "p", "n", "a", MutEvent::ADDITION); s.clear(); s.ev = e; s.k = EVENT; return false; }
      case 27: {
        Slot &ev = s.k == EVENT ? s : t, &tg = s.k == EVENT ? t : s; if(ev.k != EVENT) return false;
        Target x; if(tg.k == TARGET) x = tg.t; else { Node n = tg.node(); if(!n) return false; x = Target(n); }
        x.addEventListener("DOMNodeInserted", *this, o.c & 1); x.dispatchEvent(ev.ev); x.removeEventListener("DOMNodeInserted", *this, o.c & 1);
        if(o.d & 1) tg.clear(); return true;
      }
    }
    return false;
  }
  bool inAttr(Node n) { for(; n; n = n.getParentNode()) if(n.getNodeType() == B::ATTRIBUTE_NODE) return true; return false; }

  void go(const std::vector<OpN>& script, int nslots, bool first) {
    for(int i = 0; i < nslots; ++i) sl.emplace_back(new Slot);
    for(auto& o : script) {
      S err; bool changed = true;
      Slot *a = &at(o.a), *b = &at(o.b), *c = &at(o.c);
      try { Sut x; changed = exec(o); } catch(const std::exception& e) { err = e.what(); }
      if(first) { note("op %d(%d,%d,%d,%d)%s%s", o.op, o.a % nslots, o.b % nslots, o.c, o.d, err.empty() ? "" : " threw ", err.c_str()); sh = sh * 31 + o.op * 2 + !err.empty(); }
      int live = 0;
      for(auto& x : sl) {
        S now = describe(*x); if(x->k != NONE) ++live;
        if(changed || x.get() == a || x.get() == b || x.get() == c || o.op == 22) { x->expect = now; continue; }
        if(now != x->expect && !x->expect.empty()) fail("held-object-changed", "after op " + std::to_string(o.op) + " an object held by another handle reads\n" + now + "\ninstead of\n" + x->expect);
      }
      if(first) { maxLive = std::max(maxLive, live); for(auto& x : sl) log("%d %d", (int)x->k, (int)hash_str(x->expect)); }
    }
    // drop everything, in an order that differs between runs of the world but not between rounds
    Sut x; parser.reset(); sl.clear();
  }
};

void p13() {
  heap_choose_policy();
  int nslots = range(2, 8), n = range(3, 60), clients = range(1, 3);
  std::vector<OpN> script;
  for(int i = 0; i < n; ++i) {
    OpN o; int k = choose(40);
    static const int pick_op[40] = {2, 0, 3, 5, 4, 7, 9, 6, 12, 13, 16, 17, 18, 14, 15, 1, 19, 20, 21, 22, 23, 24, 25, 26, 27, 3, 3, 5, 5, 4, 8, 10, 11, 16, 17, 2, 0, 6, 5, 3};
    o.op = i == 0 && choose(4) ? 2 : pick_op[k];
    (void)clients;
    o.a = choose(16); o.b = choose(16); o.c = choose(64); o.d = choose(64);
    script.push_back(o);
  }
  size_t left[3]; S rep[3];
  for(int r = 0; r < 3; ++r) {
    { Runner* q = new Runner; q->go(script, nslots, r == 0); if(r == 0) { shape(q->sh); if(q->maxLive >= 2) nontrivial(); } { Sut s; delete q; } }
    left[r] = live_blocks();
    if(r && left[r] > left[r - 1]) rep[r] = live_report();
  }
  if(left[2] > left[1]) fail("memory-left", "with every handle dropped " + std::to_string(left[2] - left[1]) + " block(s) more are live after each round of the same history: " + rep[2]);
}
sim::Reg r13("P13", p13, nullptr, 60000000);
}
