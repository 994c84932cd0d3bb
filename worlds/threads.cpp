// P19: threads that use only their own objects. Each thread's work is drawn beforehand; what it produces must be what the
// same work produces alone in a process of its own, under every interleaving, and no two threads may touch the same
// memory without an order between them.
#include "../sim/threads.hpp"
#include "../sim/cases.hpp"
#include "../sim/dom.hpp"
#include <iostream>
#include <XSLT/XSLT.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/io/Stream.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/DocumentTraversalImpl.hpp>
#include <SAX/filter/Writer.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/filter/XMLBaseTracker.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <SAX/helpers/InputSourceResolver.hpp>
#include <XPath/XPath.hpp>
#include <Taggle/Taggle.hpp>
#include <convert/base64codecvt.hpp>
#include <convert/iso88591utf8codecvt.hpp>
#include <convert/rot13codecvt.hpp>
#include <convert/ucs2utf8codecvt.hpp>
#include <convert/utf16beucs2codecvt.hpp>
#include <convert/utf16leucs2codecvt.hpp>
#include <convert/utf16utf8codecvt.hpp>
#include <convert/utf8iso88591codecvt.hpp>
#include <convert/utf8ucs2codecvt.hpp>
#include <io/convertstream.hpp>
#include <sys/wait.h>
#include <unistd.h>
#include <memory>
#include <sstream>
using namespace simsax;
using sim::Sut; using sim::Shield; using sim::fail; using sim::note; using sim::quote; using sim::Split;
namespace {
namespace D = Arabica::DOM;
typedef D::Node<str> Nd; typedef D::Document<str> Document; typedef D::Element<str> Element;
S num(long n) { return std::to_string(n); }

// ---- the work of one thread, fixed before anything runs -----------------------------------------------
enum Kind { SAX, FILTER, WIDE, DOMPARSE, DOMEDIT, XPATH, XSLT, CONV, HTML, KINDS };
const char* const NAME[] = { "sax", "filter", "wide sax", "sax2dom", "dom", "xpath", "xslt", "convert", "taggle" };
struct Job { Kind kind; int backend; Set set; S bytes, sheet; Split split; std::vector<S> texts; std::vector<int> ops; };
std::map<S, S> files;                              // what the registered scheme serves; fixed before the threads start
std::istream* open_file(const std::string& url) { Shield sh; auto f = files.find(url); return f == files.end() ? nullptr : new std::istringstream(f->second); }

S small_xml() {
  static const std::vector<S> v = {
    "<a/>", "<a id='1'>t<b x='2'/><!--c--><?p d?><b id='3'>u<c/></b></a>", "<r xmlns:p='u' xmlns='d'><p:a p:x='1' y='2'>1</p:a><b>2</b><b>3</b></r>",
    "<!DOCTYPE a [<!ATTLIST b id ID #IMPLIED k CDATA 'v'><!ENTITY e 'ent'>]><a><b id='i1'>&e;</b><b id='i2'><![CDATA[<x>]]></b></a>",
    "<l><i n='3'>c</i><i n='1'>a</i><i n='2'>b</i> <i n='10'>d</i></l>", "<a xml:lang='en' xml:base='http://h/x/'><b xml:lang='fr'/><b xml:space='preserve'> </b></a>" };
  return sim::pick(v);
}
S expr() {
  static const std::vector<S> v = { "//*", "//b[1]", "/*/*[last()]", "count(//*)", "string(/)", "sum(//@n)", "//*[@id]/@id", "name(/*)", "concat(name(/*), '-', count(//b))",
    "//b | //i", "ancestor-or-self::*", "//*[position() = 2]", "//text()", "substring('abcde', 2, 3)", "translate('bar','abc','ABC')", "1 div 3", "round(2.5)", "5 mod 2 + 3 * 4",
    "not(//zz)", "//*[starts-with(name(), 'b')]", "//comment() | //processing-instruction()", "id('i1')", "boolean(//b) and 1 < 2", "following::*[1]", "preceding::*", "lang('en')", "normalize-space('  a  b ')",
    "//*[not(@*)]", "$nope", "//p:a", "foo(", "//namespace::*", "string-length(.)", "(//b)[last()]/..", "-(1 - 2)", "//*[@n > 1][2]", "'x'", "contains(string(/), 'a')", "number('12.5')", "/descendant-or-self::node()/child::b" };
  return sim::pick(v);
}
S pattern() { static const std::vector<S> v = { "a", "b[1]", "*", "/", "a/b", "//b", "@*", "text()", "node()", "id('i1')", "b|i", "comment()", "processing-instruction('p')", "l//i[@n]" }; return sim::pick(v); }
S avt() { static const std::vector<S> v = { "x", "{1}", "a{name()}b", "{{x}}", "{//b}{2}", "{count(//*)}" }; return sim::pick(v); }
S body() {
  static const std::vector<S> v = {
    "<xsl:apply-templates/>", "<xsl:for-each select='//*'><xsl:sort select='@n' data-type='number'/><e><xsl:value-of select='name()'/></e></xsl:for-each>", "<o a='{name(/*)}'><xsl:copy-of select='/*/*[1]'/></o>",
    "<xsl:choose><xsl:when test='//b'>yes</xsl:when><xsl:otherwise>no</xsl:otherwise></xsl:choose>", "<xsl:call-template name='t'><xsl:with-param name='p' select='3'/></xsl:call-template>",
    "<xsl:value-of select=\"key('k', '1')\"/>", "<xsl:variable name='v'><q/></xsl:variable><xsl:copy-of select='$v'/>", "<xsl:element name='{name(/*)}x'><xsl:attribute name='z'>1</xsl:attribute></xsl:element>",
    "<xsl:message>m</xsl:message>", "<xsl:comment>c</xsl:comment><xsl:processing-instruction name='pi'>d</xsl:processing-instruction>", "<xsl:text disable-output-escaping='yes'>&lt;</xsl:text>",
    "<xsl:value-of select=\"concat(system-property('xsl:version'), document('sim://h/data.xml')//d)\"/>", "<xsl:if test='position() = 1'>one</xsl:if>", "<xsl:number/>" };
  S r; for(int i = range(1, 4); i > 0; --i) r += sim::pick(v); return r;
}
S stylesheet() {
  S s = "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'>";
  if(sim::chance(1, 3)) s += "<xsl:import href='sim://h/imp.xsl'/>";
  if(coin()) s += S("<xsl:output method='") + (coin() ? "xml' indent='yes'" : "text'") + "/>";
  s += "<xsl:key name='k' match='*' use='@id'/>"; if(coin()) s += "<xsl:strip-space elements='*'/>"; if(coin()) s += "<xsl:variable name='g' select='count(//*)'/>";
  s += "<xsl:template name='t'><xsl:param name='p' select='1'/><t><xsl:value-of select='$p'/></t></xsl:template>";
  s += "<xsl:template match='/'>" + body() + "</xsl:template>";
  if(coin()) { S p = pattern(); if(p != "/") s += "<xsl:template match=\"" + p + "\">" + body() + "</xsl:template>"; }
  if(sim::chance(1, 10)) s += "<xsl:template match='b['/>";
  return s + "</xsl:stylesheet>";
}
S html() {
  static const std::vector<S> v = { "<p>", "<b>x", "</b>", "<table><tr><td>", "&amp;", "&eacute;", "<br>", "<!--c-->", "<a href='x' b>", "</p>", "<ul><li>1<li>2", "<script>a<b</script>", "<!DOCTYPE html>", "<foo:bar>", "</table>", "text", "<?php x?>", "<![CDATA[c]]>", "<form><input>" };
  S s; for(int i = range(1, 12); i > 0; --i) s += sim::pick(v); return s;
}
Job draw(Kind k) {
  Job j; j.kind = k; j.backend = EXPAT;
  switch(k) {
    case SAX: case WIDE: case FILTER: case DOMPARSE: {
      j.backend = k == FILTER || k == WIDE ? EXPAT : choose_backend();
      Opt o = options(j.backend); o.big = false; o.budget = 12; o.align = false; j.set = choose_set(j.backend); if(k == DOMPARSE || k == FILTER) { j.set.namespaces = true; }
      Case c = make_case(j.backend, j.set, o); j.bytes = c.bytes; j.split = sim::choose_split(j.bytes.size());
      if(sim::chance(1, 5)) j.bytes.resize(choose((uint32_t)j.bytes.size() + 1));
      j.ops.push_back(choose(6)); j.ops.push_back(choose(3)); break; }
    case DOMEDIT: j.bytes = small_xml(); for(int i = range(2, 25); i > 0; --i) j.ops.push_back(choose(1 << 20)); break;
    case XPATH: j.bytes = small_xml(); for(int i = range(1, 6); i > 0; --i) { int m = choose(4); j.ops.push_back(m); j.texts.push_back(m == 2 ? pattern() : m == 3 ? avt() : expr()); } break;
    case XSLT: j.bytes = small_xml(); j.sheet = stylesheet(); j.ops.push_back(choose(3)); break;
    case CONV: j.ops.push_back(choose(9)); j.ops.push_back(choose(400)); break;
    default: { int n = range(1, 3); for(int i = 0; i < n; ++i) j.texts.push_back(html()); j.ops.push_back(choose(8)); break; }
  }
  return j;
}

// ---- doing it ------------------------------------------------------------------------------------------
Document parse_dom(const S& xml) { Document d; std::istringstream in(xml); Sut s; Arabica::SAX2DOM::Parser<str> p; Source src(in); p.parse(src); d = p.getDocument(); return d; }
template<class E> S joined(const E& ev) { S r; for(auto& e : ev) { r += e; r += '\n'; } return r; }

S do_sax(const Job& j) {
  std::unique_ptr<Reader> r; { Sut s; r.reset(Readers<str>::make(j.backend)); Readers<str>::configure(*r, j.set); }
  Recorder<str> h; { Sut s; h.attach(*r); }
  S out;
  for(int k = 0; k < 1 + j.ops[1]; ++k) {
    h.reset(); sim::InStream in(j.bytes, j.split);
    try { Source src(in); Sut s; r->parse(src); } catch(std::exception& e) { out += S("exception ") + e.what() + "\n"; }
    out += joined(h.events()) + num(h.errors) + "/" + num(h.fatals) + " " + h.first_error + "\n";
  }
  { Sut s; r.reset(); }
  return out;
}
S do_wide(const Job& j) {
  typedef std::wstring W; typedef Arabica::default_string_adaptor<W> WA;
  std::unique_ptr<Arabica::SAX::expat_wrapper<W>> r; { Sut s; r.reset(new Arabica::SAX::expat_wrapper<W>()); }
  S out; sim::InStream in(j.bytes, j.split);
  if(j.ops[0] & 1) {
    Recorder<W> h; { Sut s; h.attach(*r); }
    try { Arabica::SAX::InputSource<W> src(in); Sut s; r->parse(src); } catch(std::exception& e) { out += S("exception ") + e.what() + "\n"; }
    out += joined(h.events()) + num(h.errors) + "/" + num(h.fatals);
  } else {
    std::wostringstream os; Arabica::SAX::CatchErrorHandler<W> eh;
    try { Arabica::SAX::InputSource<W> src(in); Sut s; Arabica::SAX::Writer<W> w(os, *r, j.ops[1]); w.setErrorHandler(eh); w.parse(src); } catch(std::exception& e) { out += S("exception ") + e.what() + "\n"; }
    out += to_s(os.str());
  }
  { Sut s; r.reset(); }
  return out;
}
S do_filter(const Job& j) {
  std::ostringstream os; sim::InStream in(j.bytes, j.split); S out;
  try {
    Sut s;
    Arabica::SAX::expat_wrapper<str> r; Arabica::SAX::CatchErrorHandler<str> eh;
    Arabica::SAX::TextCoalescer<str> tc(r); Arabica::SAX::WhitespaceStripper<str, Arabica::default_string_adaptor<str>> ws(r); Arabica::SAX::NamespaceTracker<str> nt(r); Arabica::SAX::XMLBaseTracker<str> bt(r);
    Reader* top = &r;
    switch(j.ops[0]) { case 0: break; case 1: top = &tc; break; case 2: top = &ws; break; case 3: top = &nt; break; case 4: top = &bt; break; default: nt.setParent(bt); tc.setParent(nt); ws.setParent(tc); top = &ws; }
    Arabica::SAX::Writer<str> w(os, *top, j.ops[1]); Arabica::SAX::PYXWriter<str, Arabica::default_string_adaptor<str>> p(os, *top);
    typedef Arabica::SAX::XMLFilterImpl<str, Arabica::default_string_adaptor<str>> FI; FI* f = j.ops[1] == 2 ? (FI*)&p : (FI*)&w;
    f->setErrorHandler(eh); Source src(in); src.setSystemId("http://h/doc.xml"); f->parse(src);
    if(eh.errorsReported()) { Shield sh; out = "errors\n"; }
  } catch(std::exception& e) { out += S("exception ") + e.what() + "\n"; }
  return out + os.str();
}
S do_domparse(const Job& j) {
  S out; std::ostringstream os; Arabica::SAX::CatchErrorHandler<str> eh; Document d; sim::InStream in(j.bytes, j.split);
  try {
    Sut s;
    if(j.backend == EXPAT) { Arabica::SAX2DOM::Parser<str, Arabica::default_string_adaptor<str>, Arabica::SAX::expat_wrapper<str>> p; p.setErrorHandler(eh); Source src(in); p.parse(src); d = p.getDocument(); }
    else if(j.backend == LIBXML2) { Arabica::SAX2DOM::Parser<str, Arabica::default_string_adaptor<str>, Arabica::SAX::libxml2_wrapper<str>> p; p.setErrorHandler(eh); Source src(in); p.parse(src); d = p.getDocument(); }
    else { Arabica::SAX2DOM::Parser<str, Arabica::default_string_adaptor<str>, Arabica::SAX::xerces_wrapper<str>> p; p.setErrorHandler(eh); Source src(in); p.parse(src); d = p.getDocument(); }
    if(d != 0) { os << d; }
  } catch(std::exception& e) { out += S("exception ") + e.what() + "\n"; }
  out += os.str() + "\n" + (eh.errorsReported() ? eh.errors() : S());
  if(d != 0) out += joined(DomDump<str>::of(d));
  { Sut s; d = Document(); }
  return out;
}
void nodes(const Nd& n, std::vector<Nd>& v) { v.push_back(n); for(Nd c = n.getFirstChild(); c != 0; c = c.getNextSibling()) nodes(c, v); }
S do_domedit(const Job& j) {
  Document d = parse_dom(j.bytes); S out;
  for(int op : j.ops) {
    try {
      Sut s; std::vector<Nd> v; nodes(d, v); Nd n = v[(op >> 4) % v.size()], m = v[(op >> 10) % v.size()];
      switch(op & 15) {
        case 0: case 1: { Element e = d.createElementNS("u", "p:e" + num(op & 7)); e.setAttribute("a", num(op)); n.appendChild(e); break; }
        case 2: n.appendChild(d.createTextNode("t" + num(op & 255))); break;
        case 3: n.appendChild(m); break;
        case 4: n.insertBefore(d.createComment("c"), n.getFirstChild()); break;
        case 5: if(n.getParentNode() != 0) n.getParentNode().removeChild(n); break;
        case 6: n.appendChild(m.cloneNode(true)); break;
        case 7: n.normalize(); break;
        case 8: { D::DocumentFragment<str> f = d.createDocumentFragment(); f.appendChild(d.createElement("f")); f.appendChild(d.createTextNode("g")); n.appendChild(f); break; }
        case 9: { D::NodeList<str> l = d.getElementsByTagName("b"); Shield sh; out += num(l.getLength()) + " "; break; }
        case 10: { Element e = d.getElementById("i1"); Shield sh; out += e == 0 ? "- " : "+ "; break; }
        case 11: { Document x = Arabica::SimpleDOM::DOMImplementation<str>::getDOMImplementation().createDocument("u", "q", 0); x.getDocumentElement().appendChild(x.importNode(m, true)); std::ostringstream os; os << x; Shield sh; out += os.str(); break; }
        case 12: { D::Traversal::DocumentTraversal<str> t = d.createDocumentTraversal(); D::Traversal::TreeWalker<str> w = t.createTreeWalker(d, D::Traversal::SHOW_ALL, true); for(Nd x = w.nextNode(); x != 0; x = w.nextNode()) { Shield sh; out += x.getNodeName() + ","; } break; }
        default: if(n.getNodeType() == D::Node_base::ELEMENT_NODE) { Element e(n); e.setAttributeNS("w", "w:x" + num(op & 3), "1"); if(op & 64) e.removeAttribute("a"); } break;
      }
    } catch(D::DOMException& e) { out += "!" + num(e.code()) + " "; } catch(std::exception& e) { out += S("!") + e.what() + " "; }
  }
  { std::ostringstream os; { Sut s; os << d; } out += os.str(); }
  { Sut s; d = Document(); }
  return out;
}
S show(const Arabica::XPath::XPathValue<str>& v) {
  switch(v.type()) {
    case Arabica::XPath::BOOL: return v.asBool() ? "true" : "false";
    case Arabica::XPath::NUMBER: { char b[40]; snprintf(b, sizeof b, "%.17g", v.asNumber()); return b; }
    case Arabica::XPath::STRING: return "'" + v.asString() + "'";
    default: { const Arabica::XPath::NodeSet<str>& n = v.asNodeSet(); S r = "{"; for(size_t i = 0; i < n.size(); ++i) r += n[i].getNodeName() + "=" + n[i].getNodeValue() + ";"; return r + "}"; }
  }
}
S do_xpath(const Job& j) {
  Document d = parse_dom(j.bytes); S out;
  Arabica::XPath::StandardNamespaceContext<str> ns; std::unique_ptr<Arabica::XPath::XPath<str>> x; { Sut s; x.reset(new Arabica::XPath::XPath<str>); ns.addNamespaceDeclaration("u", "p"); x->setNamespaceContext(ns); }
  for(size_t i = 0; i < j.texts.size(); ++i) {
    try {
      Sut s;
      if(j.ops[i] == 2) { std::vector<Arabica::XPath::MatchExpr<str>> m = x->compile_match(j.texts[i]); Arabica::XPath::ExecutionContext<str> c; for(auto& e : m) { S q = num((long)(e.priority() * 1000)) + (e.evaluate(d.getDocumentElement(), c) ? "y" : "n"); Shield sh; out += q; } }
      else { Arabica::XPath::XPathExpression<str> e = j.ops[i] == 3 ? x->compile_attribute_value_template(j.texts[i]) : x->compile(j.texts[i]); S r = show(e.evaluate(j.ops[i] == 1 ? (Nd)d.getDocumentElement() : (Nd)d)); Shield sh; out += r; }
    } catch(std::exception& e) { out += S("!") + e.what(); }
    out += "\n";
  }
  { Sut s; x.reset(); d = Document(); }
  return out;
}
S do_xslt(const Job& j) {
  Document d = parse_dom(j.bytes); S out; std::ostringstream os, ms;
  try {
    Sut s; Arabica::XSLT::StylesheetCompiler<str> c; std::istringstream in(j.sheet); Source src(in); src.setSystemId("sim://h/main.xsl");
    std::unique_ptr<Arabica::XSLT::Stylesheet<str>> sh = c.compile(src);
    if(!sh) { S e = c.error(); Shield x; out = "error " + e; }
    else for(int k = 0; k <= j.ops[0]; ++k) { Arabica::XSLT::StreamSink<str> sink(os); sh->set_output(sink); sh->set_error_output(ms); sh->execute(d); }
  } catch(std::exception& e) { out += S("!") + e.what(); }
  { Sut s; d = Document(); }
  return out + os.str() + "\n" + ms.str();
}
template<class C, class E, class F> S conv(int n) {
  Sut su; typedef std::basic_string<C> SC; typedef std::basic_string<E> SE;
  std::locale l(std::locale::classic(), new F());
  Arabica::io::basic_oconvertstream<C, std::char_traits<C>, E, std::char_traits<E>> os; os.imbue(l);
  SC t; for(int i = 0; i < n; ++i) t += (C)('A' + i % 57); os << t; SE o = os.str();
  Arabica::io::basic_iconvertstream<C, std::char_traits<C>, E, std::char_traits<E>> is; is.imbue(l); is.str(o);
  SC g; for(;;) { SC b(97, C()); is.read(&b[0], 97); g.append(b.data(), is.gcount()); if(!is.good()) break; }
  Shield s; return num(o.size()) + " " + num((long)sim::hash_bytes(1, o.data(), o.size() * sizeof(E))) + " " + (g == t ? "same" : "differs");
}
S do_conv(const Job& j) {
  using namespace Arabica::convert; int n = j.ops[1];
  try { switch(j.ops[0]) {
    case 0: return conv<wchar_t, char, utf8ucs2codecvt>(n);
    case 1: return conv<char, char, iso88591utf8codecvt>(n);
    case 2: return conv<char, char, utf8iso88591codecvt>(n);
    case 3: return conv<char, char, rot13codecvt>(n);
    case 4: return conv<char, char, base64codecvt>(n);
    case 5: return conv<wchar_t, char, utf16beucs2codecvt>(n);
    case 6: return conv<wchar_t, char, utf16leucs2codecvt>(n);
    default: return conv<char, char, utf16utf8codecvt>(n);
  } } catch(std::exception& e) { return S("!") + e.what(); }
}
S do_html(const Job& j) {
  typedef Arabica::SAX::Taggle<str> T; std::unique_ptr<T> t; { Sut s; t.reset(new T); }
  Recorder<str> h; { Sut s; t->setContentHandler(h); t->setLexicalHandler(h); t->setErrorHandler(h); }
  S out;
  for(auto& d : j.texts) { h.reset(); std::istringstream in(d); try { Source src(in); src.setSystemId("http://h/d"); Sut s; t->parse(src); } catch(std::exception& e) { out += S("!") + e.what(); } out += joined(h.events()); }
  { Sut s; t.reset(); }
  return out;
}
S perform(const Job& j) {
  switch(j.kind) {
    case SAX: return do_sax(j); case FILTER: return do_filter(j); case WIDE: return do_wide(j); case DOMPARSE: return do_domparse(j); case DOMEDIT: return do_domedit(j);
    case XPATH: return do_xpath(j); case XSLT: return do_xslt(j); case CONV: return do_conv(j); default: return do_html(j);
  }
}
typedef std::vector<Job> Work;
S perform_all(const Work& w) { S r; for(auto& j : w) r += S(NAME[j.kind]) + ":\n" + perform(j) + "\n"; return r; }
S alone(const Work& w) {
  int p[2]; if(pipe(p)) sim::harness_error("pipe");
  pid_t pid = fork(); if(pid < 0) sim::harness_error("fork");
  if(pid == 0) { close(p[0]); S r = "=" + perform_all(w); size_t at = 0; while(at < r.size()) { ssize_t k = ::write(p[1], r.data() + at, r.size() - at); if(k <= 0) break; at += k; } _exit(0); }
  close(p[1]); S r; char b[4096]; ssize_t k; while((k = ::read(p[0], b, sizeof b)) > 0) r.append(b, k); close(p[0]); int st; waitpid(pid, &st, 0);
  if(r.empty()) sim::harness_error("the work alone did not end: status " + num(st));
  return r.substr(1);
}
void p19() {
  sim::heap_choose_policy();
  int n = range(2, 3); std::vector<Work> w(n);
  Kind same = (Kind)choose(KINDS); bool alike = coin();           // threads doing the same kind of thing meet more often
  for(auto& x : w) for(int i = range(1, 2); i > 0; --i) x.push_back(draw(alike ? same : (Kind)choose(KINDS)));
  uint64_t sh = n;
  for(int t = 0; t < n; ++t) for(auto& j : w[t]) {
    note("thread %d: %s %s %s %s", t + 1, NAME[j.kind], backend_name(j.backend), quote(j.bytes, 600).c_str(), quote(j.sheet, 800).c_str());
    for(size_t i = 0; i < j.texts.size(); ++i) note("   %s", quote(j.texts[i]).c_str());
    sim::probe((S("work ") + NAME[j.kind]).c_str()); sh = sh * 31 + sim::hash_str(j.bytes + j.sheet) + j.kind;
  }
  sim::sample(S(NAME[w[0][0].kind]) + " beside " + NAME[w[1][0].kind]);
  if(sim::chance(1, 4)) { note("everything used once before"); sim::probe("warm"); for(auto& x : w) perform_all(x); }
  std::vector<S> want(n), got(n);
  for(int t = 0; t < n; ++t) want[t] = alone(w[t]);
  std::vector<std::function<void()>> f;
  for(int t = 0; t < n; ++t) f.push_back([&w, &got, t]() { got[t] = perform_all(w[t]); });
  sim::run_threads(f);
  note("%llu switches", (unsigned long long)sim::thread_switches());
  for(int t = 0; t < n; ++t) { sim::log("%s", got[t].c_str()); sim::expect_eq("result", want[t], got[t], "thread " + num(t + 1) + " (" + NAME[w[t][0].kind] + ") got something else than alone"); }
  if(sim::thread_switches() > (uint64_t)n) sim::nontrivial();
  sim::shape(sh); sim::shape(sim::schedule_hash());
}
void warm() {
  sim::heap_policy(sim::HeapPolicy{ true, 0, 0 });
  files["sim://h/imp.xsl"] = "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'><xsl:template match='i'><imp><xsl:value-of select='.'/></imp></xsl:template></xsl:stylesheet>";
  files["sim://h/data.xml"] = "<x><d>dd</d></x>";
  Arabica::SAX::InputSourceResolver::registerResolver("sim", open_file);
}
sim::Reg r19("P19", p19, warm, 3000000000ull);
}
