// P20: allocations fail inside operations on a tree. Two copies of the tree are changed in step; on one of them the
// allocations fail, and it must be left as it was, or as the operation leaves the other.
#include "oom.hpp"
#include "../sim/cases.hpp"
#include "../sim/dom.hpp"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/DocumentFragment.hpp>
#include <DOM/CDATASection.hpp>
#include <DOM/Comment.hpp>
#include <DOM/EntityReference.hpp>
#include <DOM/NodeList.hpp>
#include <DOM/io/Stream.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <sstream>
using namespace simsax;
using sim::coin; using sim::chance; using sim::range;
namespace oom {
namespace D = Arabica::DOM;
typedef D::Node<str> Node; typedef D::Element<str> Element; typedef D::Document<str> Document; typedef D::Attr<str> Attr; typedef D::Text<str> Text; typedef D::CharacterData<str> Data;
namespace {
Document parsed(int n) {             // with attributes of type ID and attributes with defaults
  S x = "<!DOCTYPE root [<!ATTLIST e0 b ID #IMPLIED d CDATA 'dflt'><!ATTLIST e1 a ID #IMPLIED c CDATA 'other'><!ATTLIST a b CDATA 'x'>]><root>"; for(int i = 0; i < n; ++i) x += "<e" + std::to_string(i % 2) + (i & 2 ? " a='t1' b='t2'/>" : ">t</e" + std::to_string(i % 2) + ">"); x += "</root>";
  std::istringstream in(x); Arabica::SAX2DOM::Parser<str, Arabica::SAX::expat_wrapper<str>> p; Source src(in); p.parse(src); return p.getDocument();
}
Document fresh(int n) { if(n > 4) return parsed(n - 5); Document d = Arabica::SimpleDOM::DOMImplementation<str>::getDOMImplementation().createDocument("", "root", 0); for(int i = 0; i < n; ++i) d.getDocumentElement().appendChild(d.createElement("e" + std::to_string(i))); return d; }
void collect(const Node& n, std::vector<Node>& out) { out.push_back(n); for(Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) collect(c, out); }
std::vector<Node> nodes(const Document& d) { std::vector<Node> v; collect(d, v); return v; }
void shape(const Node& n, S& r) { r += std::to_string((int)n.getNodeType()); if(n.getNodeType() == D::Node_base::TEXT_NODE || n.getNodeType() == D::Node_base::CDATA_SECTION_NODE) r += "'" + n.getNodeValue() + "'"; D::NamedNodeMap<str> m = n.getAttributes(); if(m != 0) for(unsigned i = 0; i < m.getLength(); ++i) { r += "@"; shape(m.item(i), r); } r += "("; for(Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) { if(c.getOwnerDocument() == 0) sim::fail("tree-links", "a node in the tree has no document"); shape(c, r); } r += ")"; }
S dump(const Document& d) { sim::Sut s; Events e = DomDump<str>::of(d); S r; shape(d, r); sim::Shield sh; return join(e) + r; }
struct Step { int op; uint32_t a, b, c; S n, v; };
Element element(const std::vector<Node>& v, uint32_t k) { std::vector<Node> e; for(auto& n : v) if(n.getNodeType() == D::Node_base::ELEMENT_NODE) e.push_back(n); return Element(e[k % e.size()]); }
Data data(const std::vector<Node>& v, uint32_t k) { std::vector<Node> e; for(auto& n : v) { int t = n.getNodeType(); if(t == D::Node_base::TEXT_NODE || t == D::Node_base::CDATA_SECTION_NODE || t == D::Node_base::COMMENT_NODE) e.push_back(n); } if(e.empty()) return Data(); return Data(e[k % e.size()]); }
const int NOPS = 33;
S name_of(int op) { static const char* const n[] = { "append new element", "append new text", "append new CDATA/comment/PI", "insert before", "remove", "replace", "setAttribute", "setAttributeNS", "removeAttribute", "clone and append", "import and append", "splitText", "normalize", "appendData", "insertData", "deleteData", "replaceData", "setNodeValue", "append a fragment", "count by name", "setAttributeNode", "substring", "move a subtree", "getElementById", "clone the document", "print", "new document", "attribute value", "attribute text", "remove attribute node", "replace with a fragment", "setNamedItemNS", "text of the attribute replaced" }; return n[op]; }
// what is prepared beforehand (with memory) and what is the operation itself
struct Prepared { std::vector<Node> v; Element e; Data t; Node kid, extra; Document other; std::string out; };
Prepared prepare(Document& d, const Step& s, bool& applies) {
  Prepared p; p.v = nodes(d); p.e = element(p.v, s.a); p.t = data(p.v, s.a); applies = true;
  p.kid = p.e.getFirstChild(); for(uint32_t i = s.b % 4; i > 0 && p.kid != 0; --i) p.kid = p.kid.getNextSibling();
  switch(s.op) {
    case 10: p.other = fresh(3); p.extra = p.other.getDocumentElement(); Element(p.extra).setAttribute(s.n, s.v); p.extra.getFirstChild().appendChild(p.other.createTextNode(s.v)); break;
    case 11: applies = p.t != 0 && p.t.getNodeType() != D::Node_base::COMMENT_NODE; break;
    case 13: case 14: case 15: case 16: case 17: case 21: applies = p.t != 0; break;
    case 18: { D::DocumentFragment<str> f = d.createDocumentFragment(); for(uint32_t i = 0; i < 1 + s.c % 4; ++i) f.appendChild(i & 1 ? (Node)d.createTextNode(s.v) : (Node)d.createElement(s.n)); p.extra = f; break; }
    case 20: { Attr a = d.createAttribute(s.n); a.setValue(s.v); p.extra = a; break; }
    case 27: case 28: case 29: case 32: { D::NamedNodeMap<str> m = p.e.getAttributes(); applies = m.getLength() > 0; if(applies) { p.extra = m.item(s.b % m.getLength()); applies = p.extra.getNodeName() != "d" && p.extra.getNodeName() != "c"; } break; }
    case 30: { D::DocumentFragment<str> f = d.createDocumentFragment(); for(uint32_t i = 0; i < s.c % 4; ++i) f.appendChild(i & 1 ? (Node)d.createTextNode(s.v) : (Node)d.createElement(s.n)); p.extra = f; break; }
    case 31: { Attr a = d.createAttributeNS("urn:" + s.n, "p:" + s.n); a.setValue(s.v); p.extra = a; break; }
    default: break;
  }
  return p;
}
void perform(Document& d, Prepared& p, const Step& s) {
  Node kid = p.kid;
  uint32_t at = p.t != 0 && p.t.getLength() ? s.b % (uint32_t)p.t.getLength() : 0;
  switch(s.op) {
    case 0: p.e.appendChild(d.createElement(s.n)); break;
    case 1: p.e.appendChild(d.createTextNode(s.v)); break;
    case 2: p.e.appendChild(s.c % 3 == 0 ? (Node)d.createCDATASection(s.v) : s.c % 3 == 1 ? (Node)d.createComment(s.v) : (Node)d.createProcessingInstruction(s.n, s.v)); break;
    case 3: p.e.insertBefore(s.c % 2 ? (Node)d.createElementNS("urn:" + s.v, "p:" + s.n) : (Node)d.createTextNode(s.v), kid); break;
    case 4: if(kid != 0) p.e.removeChild(kid); break;
    case 5: if(kid != 0) p.e.replaceChild(d.createElement(s.n), kid); break;
    case 6: p.e.setAttribute(s.n, s.v); break;
    case 7: p.e.setAttributeNS("urn:" + s.n, "p:" + s.n, s.v); break;
    case 8: p.e.removeAttribute(s.n); break;
    case 9: { Node n = (kid == 0 ? (Node)p.e : kid).cloneNode(true); p.e.appendChild(n); break; }
    case 10: p.e.appendChild(d.importNode(p.extra, s.c % 4 != 0)); break;
    case 11: { Text t = (Text)(Node)p.t; t.splitText(at); break; }
    case 12: p.e.normalize(); break;
    case 13: p.t.appendData(s.v); break;
    case 14: p.t.insertData(at, s.v); break;
    case 15: p.t.deleteData(at, 1 + s.c % 3); break;
    case 16: p.t.replaceData(at, 1 + s.c % 3, s.v); break;
    case 17: p.t.setNodeValue(s.v); break;
    case 18: p.e.insertBefore(p.extra, kid); break;
    case 19: { D::NodeList<str> l = p.e.getElementsByTagName(s.n); unsigned n = (unsigned)l.getLength(); for(unsigned i = 0; i < n; ++i) p.out += l.item(i).getNodeName(); break; }
    case 20: p.e.setAttributeNode(Attr(p.extra)); break;
    case 21: p.out = p.t.substringData(at, 5); break;
    case 22: if(kid != 0) element(p.v, 0).appendChild(kid); break;
    case 23: { Element e = d.getElementById(s.v); p.out = e == 0 ? "none" : e.getNodeName(); break; }
    case 24: { Document c = Document(d.cloneNode(true)); p.out = c.getDocumentElement().getNodeName(); break; }
    case 25: { std::ostringstream o; o << (s.c % 2 ? (Node)p.e : (Node)d); if(!o) throw std::bad_alloc(); p.out = o.str(); break; }
    case 27: Attr(p.extra).setValue(s.v); break;
    case 28: p.extra.appendChild(d.createTextNode(s.v)); break;
    case 29: p.e.removeAttributeNode(Attr(p.extra)); break;
    case 30: if(kid != 0) p.e.replaceChild(p.extra, kid); break;
    case 31: p.e.setAttributeNodeNS(Attr(p.extra)); break;
    case 32: { Node t = p.extra.getFirstChild(); if(t != 0) t.setNodeValue(s.v); break; }
    case 26: { Document n = fresh(s.c % 3); n.getDocumentElement().setAttribute(s.n, s.v); p.out = n.getDocumentElement().getNodeName(); break; }
  }
}
struct Done { int how = 0; S what, out; bool fired = false; uint64_t n = 0; S left; bool retried = false; };
void once(Done& o, Document& d, Prepared& p, const Step& s) {
  o.how = 0; o.what.clear(); p.out.clear();
  try { perform(d, p, s); }
  catch(std::bad_alloc&) { o.how = 1; }
  catch(D::DOMException& e) { sim::fail_alloc(-1); o.how = 2; o.what = e.what(); }
}
Done run(Document& d, const Step& s, int64_t k, bool sticky, const S* after) {
  Done o; sim::Sut su; bool applies; Prepared p = prepare(d, s, applies); if(!applies) { o.how = 3; return o; }
  uint64_t c = sim::failable_count(); sim::fail_alloc(k, sticky); once(o, d, p, s);
  o.fired = sim::alloc_failed(); sim::fail_alloc(-1); o.n = sim::failable_count() - c;
  if(o.how == 1) { o.left = dump(d); if(!after || o.left != *after) { o.retried = true; once(o, d, p, s); } }
  { sim::Shield sh; o.out = p.out; }
  return o;
}
}
void mutate() {
  uint32_t n0 = sim::choose(11); Document a, b; { sim::Sut s; a = fresh(n0); b = fresh(n0); }
  uint64_t sh = n0; S before = dump(b); bool done = true;
  for(int i = range(3, 14); i > 0; --i) {
    Step s; s.op = sim::choose(NOPS); s.a = sim::choose(16); s.b = sim::choose(8); s.c = sim::choose(12); s.n = S(1, (char)('a' + sim::choose(4))); if(chance(1, 4)) s.n += S(20, 'n'); s.v = chance(1, 3) ? S(30, 'v') : chance(1, 6) ? S(5000, 'w') : "t" + std::to_string(sim::choose(4));
    bool first = coin(), sticky = coin(); uint32_t kk = sim::choose(64);
    sim::note("step %s: element/data %u, child %u, %u, name %s, value of %zu", name_of(s.op).c_str(), s.a, s.b, s.c, s.n.c_str(), s.v.size()); (void)first;
    Done w = run(b, s, -1, false, nullptr); S after = dump(b); if(w.how == 3) continue;
    if(w.how == 1) sim::fail("harness", "bad_alloc without an armed failure");
    int64_t k = w.n ? (int64_t)(kk % w.n) : -1;
    Done g = run(a, s, k, sticky, &after); S now = dump(a);
    sim::log("%d %d %d %lld", s.op, w.how, g.how, (long long)k); sh = sh * 31 + s.op * 64 + k;
    S in = name_of(s.op) + ", allocation " + std::to_string(k) + " of " + std::to_string(w.n) + (sticky ? " and all after it" : "") + " failing";
    if(g.retried || g.how == 1) { sim::probe("ended by bad_alloc"); sim::nontrivial(); } else sim::probe(g.fired ? "failure absorbed" : "nothing to fail");
    // a fragment goes in and text is joined piece by piece: there the tree is only consistent (the dump sees to that)
    if(g.retried) { if(s.op != 12 && s.op != 18 && s.op != 30) sim::expect_eq("half-done", before, g.left, in.c_str()); in += ", then done again"; }
    if(s.op == 30 && g.retried) { done = false; break; }               // the old child may be gone and the fragment partly in
    before = after;
    if(g.how != 1 && (g.how != w.how || g.what != w.what || g.out != w.out)) sim::fail(g.retried ? "retry" : "result", in + ": it ended with '" + g.what + g.out + "' instead of '" + w.what + w.out + "'");
    sim::expect_eq(g.retried ? "retry" : "silent-loss", after, now, in.c_str());
  }
  if(done) for(const char* id : { "t0", "t1", "t2", "t3" }) { sim::Sut s; Element x = a.getElementById(id), y = b.getElementById(id); if((x == 0) != (y == 0) || (x != 0 && x.getNodeName() != y.getNodeName())) sim::fail("ids", S("getElementById(") + id + ") of the two trees differ"); }
  { sim::Sut s; a = Document(); b = Document(); }
  sim::shape(sh); sim::sample(sim::quote(before, 200));
}
}
