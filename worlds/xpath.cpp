// P18: compiled XPath expressions, matches and value templates through histories of compilations, evaluations,
// resolver failures, nested use from inside resolvers and document changes.
#include "../sim/core.hpp"
#include <iostream>
#include <Arabica/StringAdaptor.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Attr.hpp>
#include <DOM/Text.hpp>
#include <DOM/Comment.hpp>
#include <DOM/CDATASection.hpp>
#include <DOM/DocumentFragment.hpp>
#include <DOM/NamedNodeMap.hpp>
#include <DOM/ProcessingInstruction.hpp>
#include <XPath/XPath.hpp>
#include <unistd.h>
#include <sys/wait.h>
#include <memory>
#include <iostream>
using sim::choose; using sim::coin; using sim::chance; using sim::range; using sim::Sut; using sim::Shield; using sim::fail; using sim::note; using sim::quote; using sim::log;

namespace {
typedef std::string S;
namespace DOM = Arabica::DOM; namespace XP = Arabica::XPath;
typedef DOM::Node<S> Node; typedef DOM::Element<S> Element; typedef DOM::Document<S> Document; typedef DOM::Attr<S> Attr; typedef DOM::NamedNodeMap<S> Map;
typedef DOM::Node_base B;
typedef XP::XPath<S> Engine; typedef XP::XPathExpression<S> Expr; typedef XP::XPathValue<S> Value; typedef XP::NodeSet<S> NodeSet; typedef XP::MatchExpr<S> Match;
typedef XP::ExecutionContext<S> Context;
S num(int n) { return std::to_string(n); }

// ---- documents -------------------------------------------------------------------------------------
std::vector<Document> docs; std::vector<Node> loose;      // loose: roots of detached trees and fragments
bool is_attr(const Node& n) { return n.getNodeType() == B::ATTRIBUTE_NODE; }
Node up(const Node& n) { if(is_attr(n)) return Attr(n).getOwnerElement(); return n.getParentNode(); }
void walk(const Node& n, std::vector<Node>& out) {
  out.push_back(n);
  if(n.getNodeType() == B::ELEMENT_NODE) { Map m = n.getAttributes(); for(unsigned i = 0; i < m.getLength(); ++i) out.push_back(m.item(i)); }
  for(Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) walk(c, out);
}
std::vector<Node> everything() { std::vector<Node> v; for(auto& d : docs) walk(d, v); for(auto& l : loose) walk(l, v); return v; }
// where a node is: the root it hangs from, then child numbers. Namespace nodes belong to their element.
S where(const Node& n) {
  if(n == 0) return "null";
  Node p;
  if(n.getNodeType() == XP::NAMESPACE_NODE_TYPE) return where(n.getParentNode()) + "/ns:" + n.getLocalName() + "=" + n.getNodeValue();
  p = up(n);
  if(p == 0) {
    for(size_t i = 0; i < docs.size(); ++i) if(docs[i] == n) return "D" + num(i);
    for(size_t i = 0; i < loose.size(); ++i) if(loose[i] == n) return "L" + num(i);
    return "?" + n.getNodeName();
  }
  if(is_attr(n)) return where(p) + "/@" + n.getNodeName();
  int k = 0; for(Node c = p.getFirstChild(); c != 0 && c != n; c = c.getNextSibling()) ++k;
  return where(p) + "/" + num(k);
}
// document order, computed from the tree as it is now: root, element, namespaces, attributes, children
std::vector<int> rank(const Node& n) {
  std::vector<int> r; Node c = n;
  while(true) {
    Node p = c.getNodeType() == XP::NAMESPACE_NODE_TYPE ? c.getParentNode() : up(c);
    if(p == 0) break;
    if(c.getNodeType() == XP::NAMESPACE_NODE_TYPE) r.push_back(0);
    else if(is_attr(c)) r.push_back(1);
    else { int k = 2; for(Node x = p.getFirstChild(); x != 0 && x != c; x = x.getNextSibling()) ++k; r.push_back(k); }
    c = p;
  }
  std::reverse(r.begin(), r.end());
  for(size_t i = 0; i < r.size(); ++i) if(r[i] <= 1) r.resize(i + 1);      // the order of an element's attributes, and so of what is in them, is open
  return r;
}
S root_of(const Node& n) { Node c = n; while(true) { Node p = c.getNodeType() == XP::NAMESPACE_NODE_TYPE ? c.getParentNode() : up(c); if(p == 0) return where(c); c = p; } }

const char* NS = "urn:n";
Node leaf(Document& d) {
  switch(choose(6)) {
    case 0: case 1: case 2: { S t(chance(1, 6) ? 20 : 1, (char)('0' + choose(5))); return d.createTextNode(t); }
    case 3: return d.createComment("c" + num(choose(3)));
    case 4: return d.createProcessingInstruction("t" + num(choose(2)), "d");
    default: return d.createCDATASection(num(choose(30)));
  }
}
Element make(Document& d, int depth) {
  static const std::vector<S> names = { "a", "b", "c", "p:a", "p:b" };
  S q = sim::pick(names); Element e = q[1] == ':' ? d.createElementNS(NS, q) : d.createElement(q);
  if(chance(1, 4)) e.setAttributeNS("http://www.w3.org/2000/xmlns/", coin() ? "xmlns:p" : "xmlns:q", coin() ? NS : "urn:m");
  for(int i = choose(4); i > 0; --i) switch(choose(4)) { case 0: e.setAttribute("x", num(choose(4))); break; case 1: e.setAttribute("id", num(choose(4))); break; case 2: e.setAttributeNS(NS, "p:x", num(choose(3))); break; case 3: e.setAttribute("y" + num(choose(9)), "v"); break; }
  for(int i = choose(depth > 0 ? 5 : 2); i > 0; --i) if(depth > 0 && chance(2, 3)) e.appendChild(make(d, depth - 1)); else e.appendChild(leaf(d));
  return e;
}
void build() {
  for(int i = sim::comparing ? 1 : range(1, 2); i > 0; --i) {   // nodes of different trees have no order of their own (P21)
    Sut s; DOM::DOMImplementation<S> f = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
    Document d = f.createDocument("", "", 0); docs.push_back(d);
    if(chance(1, 3)) d.appendChild(d.createComment("top"));
    d.appendChild(make(d, 3));
    if(chance(1, 3)) d.appendChild(d.createProcessingInstruction("t0", "end"));
    for(int k = sim::comparing ? 0 : choose(3); k > 0; --k) { if(coin()) loose.push_back(make(d, 2)); else { Node fr = d.createDocumentFragment(); fr.appendChild(make(d, 1)); fr.appendChild(leaf(d)); loose.push_back(fr); } }
  }
}
S show(const Node& n) {
  S r; switch(n.getNodeType()) {
    case B::ELEMENT_NODE: { r = "<" + n.getNodeName(); Map m = n.getAttributes(); for(unsigned i = 0; i < m.getLength(); ++i) r += " " + m.item(i).getNodeName() + "=" + m.item(i).getNodeValue(); r += ">"; break; }
    case B::TEXT_NODE: r = "'" + n.getNodeValue() + "'"; break; case B::COMMENT_NODE: r = "!"; break; case B::PROCESSING_INSTRUCTION_NODE: r = "?" + n.getNodeName(); break; case B::CDATA_SECTION_NODE: r = "["+ n.getNodeValue() + "]"; break;
  }
  for(Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) r += show(c);
  if(n.getNodeType() == B::ELEMENT_NODE) r += "</>";
  return r;
}
S mutate() {
  std::vector<Node> els; for(auto& n : everything()) if(n.getNodeType() == B::ELEMENT_NODE) els.push_back(n);
  Element e = (Element)els[choose((uint32_t)els.size())]; Document d = e.getOwnerDocument(); S w = where(e);
  Sut su;
  switch(choose(9)) {
    case 0: { S v = num(choose(4)); e.setAttribute("id", v); return "id=" + v + " on " + w; }
    case 1: { e.setAttribute("x", num(choose(4))); return "x on " + w; }
    case 2: { e.removeAttribute("x"); return "no x on " + w; }
    case 3: { e.appendChild(make(d, 1)); return "child added to " + w; }
    case 4: { e.insertBefore(coin() ? (Node)make(d, 1) : leaf(d), e.getFirstChild()); return "child put first in " + w; }
    case 5: { Node p = e.getParentNode(); if(p == 0 || p == d || sim::comparing) return ""; p.removeChild(e); loose.push_back(e); return "detached " + w; }
    case 6: { Node l = e.getLastChild(); if(l == 0 || e.getFirstChild() == l) return ""; e.insertBefore(l, e.getFirstChild()); return "last child to front in " + w; }
    case 7: { Node f = e.getFirstChild(); if(f == 0) return ""; if(f.getNodeType() == B::TEXT_NODE || f.getNodeType() == B::CDATA_SECTION_NODE) { f.setNodeValue(num(choose(40))); return "text in " + w; } e.appendChild(f); return "first child to end in " + w; }
    default: { Node p = e.getParentNode(); if(p == 0 || p == d || p.getNodeType() != B::ELEMENT_NODE) return ""; p.insertBefore(leaf(d), e); return "leaf before " + w; }
  }
}

// ---- expressions -----------------------------------------------------------------------------------
struct Gen {
  bool vars = true, funcs = true;
  S test() { static const std::vector<S> t = { "*", "a", "b", "c", "node()", "text()", "p:a", "p:*", "comment()", "processing-instruction()", "processing-instruction('t0')", "p:b" }; return sim::pick(t); }
  S pred(int d) {
    switch(choose(9)) {
      case 0: return "[" + num(1 + choose(3)) + "]"; case 1: return "[last()]"; case 2: return "[position()=" + num(1 + choose(3)) + "]"; case 3: return "[@id]"; case 4: return "[@x='" + num(choose(4)) + "']";
      case 5: return "[position() mod 2 = 1]"; case 6: return "[last()-1]"; case 7: return "[true()]"; default: return "[" + expr(d - 1) + "]";
    }
  }
  S preds(int d) { S r; for(int i = chance(1, 3) ? 1 + choose(2) : 0; i > 0; --i) r += pred(d); return r; }
  bool rev = false;
  S step(int d) {
    static const std::vector<S> fwd = { "", "child::", "descendant::", "following-sibling::", "following::", "self::", "descendant-or-self::" }, back = { "ancestor::", "preceding::", "preceding-sibling::", "ancestor-or-self::", "parent::" };
    rev = false;
    switch(choose(8)) {
      case 0: return "."; case 1: rev = true; return ".."; case 2: { static const std::vector<S> at = { "@*", "@id", "@x", "@p:x", "attribute::node()", "@p:*" }; S r = sim::pick(at); return r + preds(d); }
      case 3: { S r = sim::pick(back) + test() + preds(d); rev = true; return r; }
      case 4: return S("namespace::*") + (coin() ? preds(d) : S());
      default: { S r = sim::pick(fwd) + test() + preds(d); rev = false; return r; }
    }
  }
  S path(int d) {
    S r; bool ns = false;
    switch(choose(5)) { case 0: if(chance(1, 4)) { rev = false; return "/"; } r = "/"; break; case 1: r = "//"; break; case 2: if(vars && d > 0) { r = "$" + nodevar() + preds(d) + (coin() ? "/" : "//"); } break; case 3: if(d > 0 && chance(1, 3)) { r = "(" + nodes(d - 1) + ")"; bool was = rev; S ps = preds(d); r += ps; if(coin()) r += "/"; else { rev = was && ps.empty(); return r; } } break; }
    for(int i = range(1, 3); i > 0; --i) { r += step(d); ns = r.find("namespace::") != S::npos; if(i > 1) r += ns ? "/" : coin() ? "/" : "//"; }
    return r;
  }
  S nodevar() { return coin() ? "n" : coin() ? "p:n" : "m"; }
  S nodes(int d) {
    if(d <= 0) return path(0);
    switch(choose(8)) { case 0: { S r = path(d) + " | " + path(d); rev = false; return r; } case 1: if(vars) { S r = "$" + nodevar() + " | " + path(d); rev = false; return r; } return path(d); case 2: if(funcs) { S r = "f:nodes(" + path(d - 1) + ")/"; r += step(d); return r; } return path(d); default: return path(d); }
  }
  S expr(int d) {
    if(d <= 0) switch(choose(6)) { case 0: return num(choose(5)); case 1: return "'" + S(choose(3), 'z') + "'"; case 2: return "position()"; case 3: return vars ? "$i" : "2"; case 4: return "last()"; default: return path(0); }
    switch(choose(22)) {
      case 0: case 1: case 2: case 3: return nodes(d);
      case 4: { static const std::vector<S> op = { "+", "-", "*", "div", "mod", "=", "!=", "<", "<=", ">", ">=", "and", "or" }; S a = expr(d - 1); return a + " " + sim::pick(op) + " " + expr(d - 1); }
      case 5: { static const std::vector<S> op = { "=", "!=", "<", "<=", ">", ">=" }; S a = path(d - 1); return a + " " + sim::pick(op) + " " + path(d - 1); }
      case 6: return "count(" + nodes(d - 1) + ")"; case 7: return "sum(" + path(d - 1) + ")"; case 8: return "string(" + nodes(d - 1) + ")"; case 9: return "name(" + (coin() ? nodes(d - 1) : S()) + ")";
      case 10: return "concat(" + expr(d - 1) + ", '-', " + expr(d - 1) + ")"; case 11: return "-" + path(d - 1); case 12: return "not(" + expr(d - 1) + ")"; case 13: return "translate(" + expr(d - 1) + ", '012', 'xy')";
      case 14: return "substring(" + expr(d - 1) + ", " + num(choose(4)) + ", 2)"; case 15: return "normalize-space(" + expr(d - 1) + ")"; case 16: return "local-name(" + (coin() ? path(d - 1) : S()) + ")"; case 17: return vars ? coin() ? "$s" : "$p:i" : "number(.)";
      case 18: return funcs ? "f:add(" + expr(d - 1) + ", " + expr(d - 1) + ")" : "string-length(.)"; case 19: return funcs ? "f:text(" + expr(d - 1) + ")" : "boolean(.)"; case 20: return funcs ? "f:here()" : "round(.)"; default: return "floor(number(" + expr(d - 1) + ") div 2)";
    }
  }
  S match() {
    static const std::vector<S> t = { "a", "b", "*", "@x", "@*", "text()", "p:a", "p:*", "node()", "comment()", "processing-instruction('t0')" };
    S r; int alts = 1 + (chance(1, 3) ? 1 : 0);
    for(int k = 0; k < alts; ++k) { if(k) r += " | "; if(chance(1, 8)) { r += "/"; continue; } if(chance(1, 5)) r += coin() ? "/" : "//"; int n = range(1, 3); for(int i = 0; i < n; ++i) { S x = sim::pick(t); if(i + 1 < n && (x[0] == '@' || x.find('(') != S::npos)) x = "*"; r += x + preds(1); if(i + 1 < n) r += coin() ? "/" : "//"; } }
    return r;
  }
  S avt() { S r; for(int i = range(1, 3); i > 0; --i) switch(choose(4)) { case 0: r += "lit "; break; case 1: r += "{{"; break; case 2: r += "}}"; break; default: r += "{" + expr(1) + "}"; } return r; }
};

// ---- resolvers -------------------------------------------------------------------------------------
struct Mine { int n; };
struct Text { int kind; S text; bool rev, ordered; };            // kind: 0 compile_expr, 1 compile, 2 match, 3 value template
struct Made { Expr e; std::vector<Match> m; };
struct Op { int text = 0; Node ctx; int entry = 0; int pos = 1, last = 1; int throw_at = -1, throw_kind = 0, nest_at = -1, nest_text = 0, nest_how = 0; Node nest_ctx; };
std::vector<Text> texts;
std::vector<Node> nvar, mvar;                        // what $n and $m hold; $m unsorted
struct Env { Engine* engine = nullptr; const Op* op = nullptr; int calls = 0; bool nested = false; S nest_got; S trail; std::vector<Made>* made = nullptr; } env;
S run_nested();
void called(const S& what) {
  Shield sh; if(!env.op) return;
  if(env.nested) return;
  int k = env.calls++; env.trail += what + ";";
  if(k == env.op->nest_at) { Env keep = env; env.nested = true; S r = run_nested(); env = keep; env.nest_got = r; }
  if(k == env.op->throw_at) {
    sim::fault("resolver-throws");
    switch(env.op->throw_kind) { case 0: throw XP::UnboundVariableException(what); case 1: throw std::runtime_error("resolver: " + what); case 2: throw Mine{ k }; default: throw std::bad_alloc(); }
  }
}
struct Namespaces : XP::NamespaceContext<S, Arabica::default_string_adaptor<S> > { S namespaceURI(const S& p) const override { called("ns " + p); if(p == "p") return NS; if(p == "f") return "urn:f"; throw XP::UnboundNamespacePrefixException(p); } };
struct Vars : XP::VariableResolver<S, Arabica::default_string_adaptor<S> > {
  Value resolveVariable(const S& ns, const S& name) const override {
    called("var {" + ns + "}" + name);
    if(name == "i") return XP::NumericValue<S>::createValue(ns.empty() ? 2 : 3);
    if(name == "s") return XP::StringValue<S>::createValue("str");
    if(name == "n") { NodeSet r; for(auto& n : nvar) r.push_back(n); if(!ns.empty() && nvar.size() > 1) { r = NodeSet(); r.push_back(nvar[1]); } r.sort(); return XP::NodeSetValue<S>::createValue(r); }
    if(name == "m") { NodeSet r; for(auto& n : mvar) r.push_back(n); return XP::NodeSetValue<S>::createValue(r); }
    throw XP::UnboundVariableException(name);
  }
};
typedef std::vector<Expr> Args;
struct Add : XP::NumericXPathFunction<S> { Add(const Args& a) : XP::NumericXPathFunction<S>(2, 2, a) { } double doEvaluate(const Node& n, const Context& c) const override { double a = argAsNumber(0, n, c); called("call add"); return a + argAsNumber(1, n, c); } };
struct TextFn : XP::StringXPathFunction<S> { TextFn(const Args& a) : XP::StringXPathFunction<S>(1, 1, a) { } S doEvaluate(const Node& n, const Context& c) const override { called("call text"); return "<" + argAsString(0, n, c) + ">"; } };
struct HereFn : XP::StringXPathFunction<S> { HereFn(const Args& a) : XP::StringXPathFunction<S>(0, 0, a) { } S doEvaluate(const Node& n, const Context& c) const override { called("call here"); return where(n) + "#" + num(c.position()) + "/" + num(c.last()); } };
struct NodesFn : XP::NodeSetXPathFunction<S> { NodesFn(const Args& a) : XP::NodeSetXPathFunction<S>(1, 1, a) { } NodeSet doEvaluate(const Node& n, const Context& c) const override { called("call nodes"); return argAsNodeSet(0, n, c); } };
struct Funcs : XP::FunctionResolver<S, Arabica::default_string_adaptor<S> > {
  XP::XPathFunction<S>* resolveFunction(const S& ns, const S& name, const Args& a) const override {
    called("fn {" + ns + "}" + name);
    if(ns != "urn:f") return 0;
    if(name == "add") return new Add(a); if(name == "text") return new TextFn(a); if(name == "here") return new HereFn(a); if(name == "nodes") return new NodesFn(a);
    return 0;
  }
  std::vector<std::pair<S, S> > validNames() const override { return std::vector<std::pair<S, S> >(); }
};
Namespaces the_ns; Vars the_vars; Funcs the_funcs;
std::unique_ptr<Engine> engine(bool owned) {
  std::unique_ptr<Engine> e; Sut s; e.reset(new Engine);
  if(owned) { e->setNamespaceContext(XP::NamespaceContextPtr<S, Arabica::default_string_adaptor<S> >(new Namespaces)); e->setVariableResolver(XP::VariableResolverPtr<S, Arabica::default_string_adaptor<S> >(new Vars)); e->setFunctionResolver(XP::FunctionResolverPtr<S, Arabica::default_string_adaptor<S> >(new Funcs)); }
  else { e->setNamespaceContext(the_ns); e->setVariableResolver(the_vars); e->setFunctionResolver(the_funcs); }
  return e;
}

// ---- running things --------------------------------------------------------------------------------
S number(double d) { if(d != d) return "NaN"; char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
template<class F> S caught(F f) {
  try { return f(); }
  catch(const Mine& m) { return "threw Mine " + num(m.n); }
  catch(const std::bad_alloc&) { return "threw bad_alloc"; }
  catch(const std::exception& e) { return S("threw ") + e.what(); }
}
bool check_order = false, may_reverse = false; S order_problem; 
void order(const NodeSet& ns) {
  if(!check_order) return; Shield sh;
  std::vector<S> roots; std::vector<S> seen; int dir = 0;
  for(size_t i = 0; i < ns.size(); ++i) {
    S r = root_of(ns[i]);
    if(i && r == root_of(ns[i - 1])) {
      std::vector<int> a = rank(ns[i - 1]), b = rank(ns[i]); int c = a < b ? 1 : b < a ? -1 : 0;
      if(c == 0) { if(std::find_if(a.begin(), a.end(), [](int x) { return x <= 1; }) != a.end()) { if(ns[i] == ns[i - 1]) order_problem = "the same node twice: " + where(ns[i]); continue; } order_problem = "the same node twice: " + where(ns[i]); return; }
      if(dir == 0) dir = c; if(c != dir || (c < 0 && !may_reverse)) { order_problem = where(ns[i - 1]) + " comes before " + where(ns[i]); return; }
    } else { if(std::find(roots.begin(), roots.end(), r) != roots.end()) { order_problem = "the nodes of tree " + r + " are not together"; return; } roots.push_back(r); }
  }
  sim::probe(dir < 0 ? "reverse order checked" : "document order checked");
}
S write(const NodeSet& ns) { Shield sh; S r = "{"; for(size_t i = 0; i < ns.size(); ++i) r += where(ns[i]) + " "; return r + "}"; }
S write(const Value& v) {
  switch(v.type()) {
    case XP::BOOL: return v.asBool() ? "true" : "false"; case XP::NUMBER: return number(v.asNumber()) + " '" + v.asString() + "'"; case XP::STRING: return "'" + v.asString() + "' " + number(v.asNumber());
    case XP::NODE_SET: { const NodeSet& n = v.asNodeSet(); order(n); S r = write(n); r += " " + caught([&]() { return S(v.asString()); }); return r; }
    default: return "any";
  }
}
S compile(Engine& x, const Text& t, Made& m) {
  return caught([&]() -> S { Sut s; switch(t.kind) { case 0: m.e = x.compile_expr(t.text); break; case 1: m.e = x.compile(t.text); break; case 2: m.m = x.compile_match(t.text); break; default: m.e = x.compile_attribute_value_template(t.text); } return ""; });
}
std::vector<Value>* keep = nullptr;
S evaluate(const Made& m, const Text& t, const Node& ctx, int entry, int pos, int last) {
  return caught([&]() -> S {
    Sut su; Context c; c.setVariableResolver(the_vars); c.setPosition(pos); c.setLast(last); c.setCurrentNode(ctx);
    if(t.kind == 2) { S r; for(auto& x : m.m) r += number(x.priority()) + (x.evaluate(ctx, c) ? "y" : "n"); return r; }
    switch(entry) {
      case 1: return m.e.evaluateAsBool(ctx, c) ? "true" : "false"; case 2: return number(m.e.evaluateAsNumber(ctx, c)); case 3: return "'" + m.e.evaluateAsString(ctx, c) + "'"; case 4: { NodeSet n = m.e.evaluateAsNodeSet(ctx, c); order(n); return write(n); }
      case 5: { Value v = m.e.evaluate(ctx); return write(v); }
      default: { Value v = m.e.evaluate(ctx, c); S r = write(v); if(keep && coin()) keep->push_back(v); return r; }
    }
  });
}
S run_nested() {
  sim::probe("nested use"); bool co = check_order; check_order = false; std::vector<Value>* k = keep; keep = nullptr;
  Text& t = texts[env.op->nest_text]; S r;
  if(env.op->nest_how == 0 && env.made && ((*env.made)[env.op->nest_text].e || !(*env.made)[env.op->nest_text].m.empty())) r = evaluate((*env.made)[env.op->nest_text], t, env.op->nest_ctx, 0, 1, 1);
  else { Made m; std::unique_ptr<Engine> own; Engine* x = env.engine; if(env.op->nest_how == 2 || !x) { own = engine(false); x = own.get(); } r = compile(*x, t, m); if(r.empty()) r = evaluate(m, t, env.op->nest_ctx, 0, 1, 1); Sut s; m = Made(); own.reset(); }
  check_order = co; keep = k; return r;
}

// ---- P18 -------------------------------------------------------------------------------------------
// the target evaluation alone, in a process where nothing else was compiled or evaluated
S alone(const Op& op) {
  int p[2]; if(pipe(p)) return "";
  pid_t pid = fork();
  if(pid == 0) {
    close(p[0]); env = Env(); std::unique_ptr<Engine> x = engine(false); Made m; Op o = op; o.nest_at = -1; env.op = &o;
    S r = compile(*x, texts[op.text], m); if(r.empty()) { r = evaluate(m, texts[op.text], op.ctx, op.entry, op.pos, op.last); }
    r = "=" + r; size_t at = 0; while(at < r.size()) { ssize_t k = ::write(p[1], r.data() + at, r.size() - at); if(k <= 0) break; at += k; } _exit(0);
  }
  close(p[1]); S r; char b[4096]; ssize_t k; while((k = ::read(p[0], b, sizeof b)) > 0) r.append(b, k); close(p[0]); int st; waitpid(pid, &st, 0);
  return r;
}
// what follows from node-sets being in document order: what a filter expression selects by position, and the string value
void laws(const Text& t, const Op& op) {
  env = Env(); std::unique_ptr<Engine> x = engine(false);
  Text tt = t; tt.kind = 0;
  auto nodes = [&](const S& e, NodeSet& out, S* str) { tt.text = e; Made m; S r = compile(*x, tt, m); if(r.empty()) r = caught([&]() -> S { Sut su; Context c; c.setVariableResolver(the_vars); c.setPosition(op.pos); c.setLast(op.last); c.setCurrentNode(op.ctx); Value v = m.e.evaluate(op.ctx, c); if(v.type() != XP::NODE_SET) return "no node-set"; out = v.asNodeSet(); if(str) *str = v.asString(); return ""; }); { Sut s; m = Made(); } return r; };
  NodeSet all, one; S value;
  if(nodes(t.text, all, &value).empty() && all.size() > 0) {
    std::vector<std::pair<std::vector<int>, S> > rs; bool plain = true; S root = root_of(all[0]);
    for(size_t i = 0; i < all.size(); ++i) { std::vector<int> k = rank(all[i]); rs.push_back(std::make_pair(k, where(all[i]))); if(root_of(all[i]) != root) plain = false; }
    std::sort(rs.begin(), rs.end()); for(size_t i = 1; i < rs.size(); ++i) if(rs[i].first == rs[i - 1].first) plain = false;
    if(plain) {
      sim::probe("positions checked against document order");
      size_t k = choose((uint32_t)rs.size() + 1);       // rs.size(): last()
      S e = "(" + t.text + ")[" + (k == rs.size() ? S("last()") : num((int)k + 1)) + "]", want = rs[std::min(k, rs.size() - 1)].second;
      S p = nodes(e, one, nullptr); S got = p.empty() ? write(one) : p;
      if(got != "{" + want + " }") fail("document-order", "'" + e + "' at " + where(op.ctx) + "\nis in document order: " + want + "\nevaluates to:         " + got + "\nall of it:            " + write(all));
      S v = nodes("(" + t.text + ")[1]", one, &got).empty() ? got : S();
      if(v != value) fail("document-order", "string('" + t.text + "') at " + where(op.ctx) + " is '" + value + "', and of the node first in document order '" + v + "'");
    }
  }
  { Sut s; all = NodeSet(); one = NodeSet(); tt = Text(); x.reset(); }
}
void p18() {
  docs.clear(); loose.clear(); texts.clear(); nvar.clear(); mvar.clear(); env = Env(); sim::heap_choose_policy();
  build(); for(auto& d : docs) note("document: %s", show(d).c_str()); for(auto& l : loose) note("loose: %s", show(l).c_str());
  uint64_t sh = 0;
  for(int i = range(2, 6); i > 0; --i) { Gen g; Text t; t.kind = chance(1, 5) ? 2 : chance(1, 8) ? 3 : 0; if(t.kind == 2) { g.vars = chance(1, 3); g.funcs = chance(1, 3); t.text = g.match(); } else if(t.kind == 3) t.text = g.avt(); else { bool set = chance(2, 3); t.text = set ? g.nodes(2) : g.expr(2); } t.rev = g.rev; t.ordered = t.text[0] != '$' && t.text.compare(0, 2, "f:") && t.text.find("$m") == S::npos;
    if(chance(1, 12)) t.text += coin() ? "[" : " $"; if(t.kind == 0 && chance(1, 6) && t.text.find_first_of("$ +=<>:'()|") == S::npos) t.kind = 1;
    texts.push_back(t); note("text %d (%d): %s", (int)texts.size() - 1, t.kind, t.text.c_str()); sh = sh * 31 + sim::hash_str(t.text) + t.kind; }
  sim::sample(texts[0].text + "  on  " + show(docs[0]).substr(0, 150)); sim::nontrivial();
  std::vector<Made> made(texts.size()); std::vector<Value> kept; std::vector<S> kept_as; std::vector<std::unique_ptr<Engine> > xs; int nx = range(1, 2); for(int i = 0; i < nx; ++i) xs.push_back(engine(coin()));
  int steps = range(3, 9), target = choose(steps);
  for(int i = 0; i < steps; ++i) {
    for(int k = choose(3); k > 0; --k) { S w = mutate(); if(!w.empty()) { note("change: %s", w.c_str()); sim::probe("document changed"); sh = sh * 31 + sim::hash_str(w); } }
    std::vector<Node> all = everything();
    nvar.clear(); mvar.clear(); for(int k = choose(4); k > 0; --k) nvar.push_back(all[choose((uint32_t)all.size())]); for(int k = choose(4); k > 0; --k) mvar.push_back(all[choose((uint32_t)all.size())]);
    Op op; op.text = choose((uint32_t)texts.size()); op.ctx = all[choose((uint32_t)all.size())]; op.entry = choose(12); if(op.entry > 5) op.entry = 0; op.pos = range(1, 3); op.last = op.pos + choose(2);
    bool upset = chance(1, 4), nest = chance(1, 3);
    if(upset) { op.throw_at = choose(5); op.throw_kind = choose(4); }
    if(nest) { op.nest_at = choose(4); op.nest_text = choose((uint32_t)texts.size()); op.nest_how = choose(3); op.nest_ctx = all[choose((uint32_t)all.size())]; }
    const Text& t = texts[op.text]; Made& m = made[op.text];
    S want_alone; if(i == target) { env = Env(); want_alone = alone(op); sim::probe("compared with a process of its own"); }
    // the fresh one, before or after
    S want, want_trail; bool first = coin(); bool cmp = false;
    auto fresh = [&](bool throws_in_compile) { env = Env(); Op o = op; o.nest_at = -1; if(!throws_in_compile) o.throw_at = -1; std::unique_ptr<Engine> x = engine(false); Made f; env.op = &o; S r = compile(*x, t, f); if(r.empty()) { if(!throws_in_compile) { env.calls = 0; env.trail.clear(); o.throw_at = op.throw_at; } r = evaluate(f, t, op.ctx, op.entry, op.pos, op.last); } else r = "compile " + r; want = r; want_trail = env.trail; env = Env(); Sut s; f = Made(); x.reset(); };
    bool have = (bool)m.e || !m.m.empty(); int x = choose(nx); S got; keep = nullptr;
    bool fresh_kept = have && chance(2, 3);      // evaluate the one compiled before
    if(!fresh_kept) {
      if(first) fresh(true);
      env = Env(); env.op = &op; env.engine = xs[x].get(); env.made = &made; Made f; S r = compile(*xs[x], t, f);
      if(chance(1, 5)) { sim::probe("compiler gone before evaluation"); Sut s; xs[x].reset(); } if(!xs[x]) { Env e = env; env = Env(); xs[x] = engine(coin()); env = e; env.engine = xs[x].get(); }
      if(r.empty()) { if(chance(1, 3)) { Sut s; Made copy(f); f = Made(); f = copy; } check_order = t.ordered; may_reverse = t.rev; order_problem.clear(); std::vector<Value> ks; keep = &kept; r = evaluate(f, t, op.ctx, op.entry, op.pos, op.last); keep = nullptr; check_order = false; Sut s; m = f; } else r = "compile " + r;
      { Sut s; f = Made(); } got = r; 
    } else {
      if(first) fresh(false);
      env = Env(); env.op = &op; env.engine = xs[x].get(); env.made = &made; check_order = t.ordered; may_reverse = t.rev; order_problem.clear(); keep = &kept; got = evaluate(m, t, op.ctx, op.entry, op.pos, op.last); keep = nullptr; check_order = false; sim::probe("evaluated again");
    }
    S trail = env.trail, nested = env.nest_got; env = Env(); (void)cmp;
    if(!first) fresh(!fresh_kept);
    note("step %d: text %d at %s (%d/%d), entry %d%s%s -> %s   [%s]", i, op.text, where(op.ctx).c_str(), op.pos, op.last, op.entry, upset ? (", throws at " + num(op.throw_at)).c_str() : "", nest ? (", nests " + num(op.nest_text) + " at " + num(op.nest_at)).c_str() : "", got.c_str(), trail.c_str());
    if(got != want) fail("value", "evaluating '" + t.text + "' at " + where(op.ctx) + "\nfreshly compiled: " + want + "\nthis one:         " + got);
    if(trail != want_trail) fail("resolver-calls", "evaluating '" + t.text + "' at " + where(op.ctx) + "\nfreshly compiled asks: " + want_trail + "\nthis one asks:         " + trail);
    if(i == target && (!fresh_kept || !upset)) { S w = got; if(w.compare(0, 8, "compile ") == 0) w = w.substr(8); if(want_alone != "=" + w) fail("value-alone", "evaluating '" + t.text + "' at " + where(op.ctx) + "\nalone in a process: " + want_alone + "\nhere:               =" + w); }
    if(!order_problem.empty()) { S o = order_problem; order_problem.clear(); fail("document-order", "'" + t.text + "' at " + where(op.ctx) + " gives " + got + ": " + o); }
    if(t.kind < 2 && chance(1, 3) && t.text.find("$m") == S::npos) laws(t, op);
    if(!nested.empty()) { env = Env(); std::unique_ptr<Engine> f = engine(false); Made fm; const Text& nt = texts[op.nest_text]; S w = compile(*f, nt, fm); if(w.empty()) w = evaluate(fm, nt, op.nest_ctx, 0, 1, 1); { Sut s; fm = Made(); f.reset(); } if(w != nested) fail("nested-value", "evaluating '" + nt.text + "' inside '" + t.text + "'\nfreshly compiled: " + w + "\nnested:           " + nested); }
    while(kept_as.size() < kept.size()) { Sut s; kept_as.push_back(kept[kept_as.size()].type() == XP::NODE_SET ? "" : write(kept[kept_as.size()])); }
    for(size_t k = 0; k < kept.size(); ++k) if(kept[k].type() != XP::NODE_SET) { S now; { Sut s; now = write(kept[k]); } if(now != kept_as[k]) fail("kept-value", "a value kept from an earlier evaluation changed from " + kept_as[k] + " to " + now); } else { Sut s; NodeSet ns(kept[k].asNodeSet()); caught([&]() { return kept[k].asString(); }); }
    if(chance(1, 6)) { Sut s; m = Made(); } if(chance(1, 5)) { Sut s; kept.clear(); kept_as.clear(); }
    log("%s", got.c_str()); sh = sh * 31 + op.text * 64 + op.entry + (upset ? op.throw_at * 1000 : 0) + (nest ? op.nest_at * 77777 : 0);
    if(got.compare(0, 6, "threw ") == 0) sim::probe("evaluation abandoned"); if(got.compare(0, 8, "compile ") == 0) sim::probe("compilation failed");
  }
  { Sut s; made.clear(); xs.clear(); if(chance(1, 2)) { docs.clear(); loose.clear(); nvar.clear(); mvar.clear(); kept.clear(); } else { kept.clear(); docs.clear(); loose.clear(); nvar.clear(); mvar.clear(); } }
  sim::shape(sh);
}
void warm() {
  Sut s; Engine x; DOM::DOMImplementation<S> f = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation(); Document d = f.createDocument("", "a", 0); x.setNamespaceContext(the_ns);
  x.compile_expr("//p:a[1]/@b | /c"); x.compile_match("a/b[1]"); x.compile_attribute_value_template("x{1}"); x.evaluate_expr("count(//*)+sum(*)", d);
}
sim::Reg r18("P18", p18, warm, 2000000000ull);
}
