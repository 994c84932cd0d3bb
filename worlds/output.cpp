// P08: SAX Writer, PYXWriter and DOM stream output onto sinks that fail at any byte, and what they wrote parsed back.
#include "../sim/cases.hpp"
#include "../sim/dom.hpp"
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/io/Stream.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <SAX/filter/Writer.hpp>
using namespace simsax;

namespace {
const S XMLNS = "http://www.w3.org/XML/1998/namespace", XMLNSNS = "http://www.w3.org/2000/xmlns/";

template<class st> struct Sink {
  typedef typename st::value_type ch;
  sim::BasicOutBuf<ch> buf; std::basic_ostream<ch> os;
  Sink() : os(&buf) { }
  S got() { return to_s(st(buf.data())); }
};

struct Plan { bool fail = false; IoFail f = sim::IO_NONE; size_t at = 0; bool mask = false; };
Plan choose_plan(size_t total) {
  Plan p;
  p.fail = chance(1, 2);
  if(!p.fail) return p;
  p.f = sim::pick(std::vector<IoFail>{ sim::IO_BAD, sim::IO_EOF, sim::IO_THROW });
  p.at = total ? choose((uint32_t)total) : 0;
  p.mask = chance(1, 3);
  return p;
}

// writes with f on the sink under the plan; judges what arrived against the reference
template<class st, class F> void output(Sink<st>& k, const Plan& p, const S& ref, const S& what, F f) {
  k.buf.clear(); k.buf.disarm(); k.os.exceptions(std::ios::goodbit); k.os.clear();
  if(p.fail) { k.buf.arm(p.f, p.at); if(p.mask) k.os.exceptions(std::ios::badbit); }
  bool threw = false; S ex;
  try { sim::Sut s; f(); }
  catch(const std::ios_base::failure& e) { threw = true; ex = "ios_base::failure"; }
  catch(const sim::IoError&) { threw = true; ex = "the sink's exception"; }
  k.os.exceptions(std::ios::goodbit);
  S got = k.got(); sim::result("output", got);
  sim::log("%s: %zu of %zu arrived%s", what.c_str(), got.size(), ref.size(), threw ? ", threw" : "");
  if(threw && !p.mask) sim::fail("output-threw", what + ": " + ex + " although the stream does not ask for exceptions");
  if(!p.fail) {
    if(!k.os) sim::fail("good-sink", what + ": the stream failed on a good sink");
    sim::expect_eq("output-bytes", ref, got, what);
    return;
  }
  if(!k.buf.fired()) sim::fail("output-short", what + ": only " + std::to_string(got.size()) + " of " + std::to_string(ref.size()) + " were written before the sink would have failed at " + std::to_string(p.at));
  if(ref.compare(0, got.size(), got) != 0) sim::expect_eq("output-prefix", ref.substr(0, got.size()), got, what + ", what a sink failing at " + std::to_string(p.at) + " received");
  if(k.os.good() && !threw) sim::fail("failure-unreported", what + ": the sink failed at " + std::to_string(p.at) + " and the stream is still good");
}

// ---------------------------------------------------------------- SAX writers
template<class st> struct PyxModel : Arabica::SAX::DefaultHandler<st> {
  typedef typename Arabica::SAX::DefaultHandler<st>::AttributesT AttributesT;
  S out; bool plain = false;
  static S esc(const S& s) { S r; for(char c : s) if(c == '\n') r += "\\n"; else r += c; return r; }
  void startElement(const st&, const st& l, const st&, const AttributesT& a) override {
    sim::Shield sh;
    out += "(" + to_s(l) + "\n";
    for(int i = 0; i != a.getLength(); ++i) out += "A" + to_s(a.getLocalName(i)) + " " + esc(to_s(a.getValue(i))) + "\n";
  }
  void endElement(const st&, const st& l, const st&) override { sim::Shield sh; out += ")" + to_s(l) + "\n"; }
  void characters(const st& c) override { sim::Shield sh; out += "-" + esc(to_s(c)) + "\n"; }
  void processingInstruction(const st& t, const st& d) override { sim::Shield sh; out += "?" + to_s(t) + " " + to_s(d) + "\n"; }
};

template<class st> void parse_with(typename Readers<st>::R& r, const S& bytes, const Split& sp) {
  sim::InStream* s = new sim::InStream(bytes, sp);
  Arabica::SAX::InputSource<st> src((std::unique_ptr<std::istream>(s)));
  sim::Sut sut; r.parse(src);
}

// white space is the indenter's to change
Events without_space(const Events& e) {
  Events r;
  for(auto& x : e) {
    if(x.compare(0, 2, "T ") != 0) { r.push_back(x); continue; }
    S t; for(char c : x.substr(2)) if(!strchr(" \t\r\n", c)) t += c;
    if(t.empty()) continue;
    if(!r.empty() && r.back().compare(0, 2, "T ") == 0) r.back() += t; else r.push_back("T " + t);
  }
  return r;
}

template<class st> struct WDoc { Case c; Split sp; S ref; };

size_t to_units(const S& s, bool wide) { return wide ? codepoints(s).size() : s.size(); }
template<class R, class O, class st> Arabica::SAX::Writer<st, Arabica::default_string_adaptor<st>>* make_writer(O& os, R& r, int indent, Arabica::SAX::Writer<st, Arabica::default_string_adaptor<st>>*) { return new Arabica::SAX::Writer<st, Arabica::default_string_adaptor<st>>(os, r, (unsigned)indent); }
template<class R, class O, class st> Arabica::SAX::PYXWriter<st, Arabica::default_string_adaptor<st>>* make_writer(O& os, R& r, int, Arabica::SAX::PYXWriter<st, Arabica::default_string_adaptor<st>>*) { return new Arabica::SAX::PYXWriter<st, Arabica::default_string_adaptor<st>>(os, r); }


template<class st, class W> void writers(bool pyx) {
  typedef typename Readers<st>::R R;
  bool wide = sizeof(typename st::value_type) > 1;
  Set set; set.backend = EXPAT; set.prefixes = coin(); set.namespaces = !chance(1, 4); if(!set.namespaces) set.prefixes = true;
  int indent = pyx || !chance(1, 3) ? 0 : 1 + (int)choose(3);
  int n = 1 + (int)choose(3);
  std::vector<WDoc<st>> docs(n);
  auto fresh = [&](std::basic_ostream<typename st::value_type>& os, R& r) -> W* { sim::Sut s; return make_writer(os, r, indent, (W*)nullptr); };
  auto reader = [&] { sim::Sut s; R* r = Readers<st>::make(EXPAT); Readers<st>::configure(*r, set); return r; };
  uint64_t shape = sim::hash_str(S(pyx ? "pyx" : "xml") + (wide ? "w" : "n") + std::to_string(indent) + std::to_string(set.prefixes));
  for(auto& d : docs) {
    Opt o = options(EXPAT); if(pyx) o.align = false; o.budget = 20;
    d.c = make_case(EXPAT, set, o); d.sp = sim::choose_split(d.c.bytes.size());
    sim::note("document %s", sim::quote(d.c.bytes, 4000).c_str());
    Sink<st> k; R* r = reader(); W* w = fresh(k.os, *r);
    PyxModel<st> pm; Recorder<st> rec;
    if(pyx) { sim::Sut s; w->setContentHandler(pm); w->setErrorHandler(rec); } else { sim::Sut s; rec.attach(*w); }
    output<st>(k, Plan(), pyx ? S() : S(), "reference", [&] { parse_with<st>(*w, d.c.bytes, d.sp); d.ref = [&] { sim::Shield sh; return k.got(); }(); k.buf.clear(); });
    if(pyx) sim::expect_eq("pyx-bytes", pm.out, d.ref, "PYXWriter");
    else {
      Recorder<st> again; R* r2 = reader(); { sim::Sut s; again.attach(*r2); }
      try { parse_with<st>(*r2, d.ref, Split()); } catch(const Arabica::SAX::SAXException& e) { sim::fail("reparse", S("what the Writer wrote does not parse: ") + e.what() + " in " + sim::quote(d.ref, 1500)); }
      if(again.fatals + again.errors) sim::fail("reparse", "what the Writer wrote does not parse: " + again.first_error + " in " + sim::quote(d.ref, 1500));
      Events want = d.c.want, got = again.events();
      if(indent) want = without_space(want), got = without_space(got);
      sim::expect_eq("round-trip", join(want), join(got), "parsed back from " + sim::quote(d.ref, 1500));
      { sim::Sut s; delete r2; }
    }
    { sim::Sut s; delete w; delete r; }
    shape = sim::hash_bytes(shape, d.ref.data(), d.ref.size());
  }
  // the history on one writer
  Sink<st> k; R* r = reader(); W* w = fresh(k.os, *r); Recorder<st> rec;
  bool quiet = coin();
  if(!quiet) { sim::Sut s; rec.attach(*w); }
  int steps = 2 + (int)choose(4); bool failed = false;
  for(int i = 0; i != steps; ++i) {
    WDoc<st>& d = docs[choose((uint32_t)n)];
    Plan p = choose_plan(to_units(d.ref, wide)); if(i + 1 == steps) p.fail = false;
    if(p.fail) failed = true;
    rec.reset();
    output<st>(k, p, d.ref, S(pyx ? "PYXWriter" : "Writer") + " output " + std::to_string(i), [&] { parse_with<st>(*w, d.c.bytes, d.sp); });
    shape = sim::hash_bytes(shape, &p.at, sizeof(p.at)); shape = sim::hash_bytes(shape, &p.f, sizeof(p.f));
    if(!p.fail && !quiet && rec.events() != d.c.want) sim::expect_eq("passed-on", join(d.c.want), join(rec.events()), "events the Writer passed on");
  }
  { sim::Sut s; delete w; delete r; }
  if(failed) sim::nontrivial();
  sim::shape(shape);
  sim::sample(S(pyx ? "PYXWriter" : "Writer") + (wide ? " wide" : "") + ", indent " + std::to_string(indent) + ", " + std::to_string(n) + " documents, " + std::to_string(steps) + " outputs");
}
// Documents in several pieces: what the external subset and external parameter entities declare is the external
// resources' business, except for an external parameter entity the internal subset refers to, whose declarations take
// the place of the reference.
struct Pieces {
  std::map<S, S> ext; S bytes; int n = 0; std::vector<S> params;
  S decl(int depth) {
    int i = n++; S id = std::to_string(i);
    switch(choose(depth > 2 ? 7 : 10)) {
      case 0: return "<!ELEMENT e" + id + " " + sim::pick(std::vector<S>{ "ANY", "EMPTY", "(#PCDATA)", "(a|b)*" }) + ">\n";
      case 1: return "<!--c" + id + sim::pick(std::vector<S>{ "", " %not; &not; \"'" }) + "-->";
      case 2: return "<?p" + id + " d" + id + "?>\n";
      case 3: return "<!ATTLIST r a" + id + " " + sim::pick(std::vector<S>{ "CDATA #IMPLIED", "CDATA 'dflt &lt; \"q\"'", "(x|y) 'y'", "NMTOKENS #FIXED 'n m'", "CDATA ''" }) + ">";
      case 4: return "<!NOTATION n" + id + " " + sim::pick(std::vector<S>{ "SYSTEM 'nota'", "PUBLIC 'pub'", "PUBLIC 'pub' 'nota\"q'" }) + "><!ENTITY u" + id + " SYSTEM 'unp' NDATA n" + id + ">";
      case 5: return "<!ENTITY g" + id + " " + sim::pick(std::vector<S>{ "'plain'", "'&#38;amp; <i>x</i> &#37;'", "\"it's\"", "'say \"so\"'" }) + ">\n ";
      case 6: return "<!ENTITY xx" + id + " SYSTEM \"never" + id + "\">";
      default: {
        S name = "pe" + id, sys = "sim:" + name, body; ext[sys];
        for(int k = (int)choose(3); k-- > 0;) body += decl(depth + 1);
        ext[sys] = body;
        S r = "<!ENTITY % " + name + " SYSTEM \"" + sys + "\">\n"; params.push_back(name);
        if(!chance(1, 4)) { r += "%" + name + ";"; sim::probe(depth ? "nested-parameter-entity" : "parameter-entity"); }
        if(chance(1, 4)) r += "\n%" + params[choose((uint32_t)params.size())] + ";\n";
        return r;
      }
    }
  }
  S content(int depth) {
    S r;
    for(int k = 1 + (int)choose(4); k-- > 0;) switch(choose(depth > 2 ? 4 : 6)) {
      case 0: r += "text "; break;
      case 1: r += "<e a='1'/>"; break;
      case 2: r += "<!--in-->"; break;
      case 3: r += "<![CDATA[]] <&]]>"; break;
      case 4: r += "<r>" + content(depth + 1) + "</r>"; break;
      case 5: { if(general.empty()) break; r += "&" + sim::pick(general) + ";"; sim::probe("external-general-entity"); break; }
    }
    return r;
  }
  std::vector<S> general;
  void make() {
    bool dtd = chance(3, 4); std::vector<S> fixed = params;
    S head = "<?xml version='1.0'?>\n<!DOCTYPE r ", inner;
    head += !dtd ? S() : coin() ? "PUBLIC \"-//X//Y\" \"sim:dtd\" " : "SYSTEM \"sim:dtd\" ";
    for(int k = (int)choose(5); k-- > 0;) inner += decl(0);
    for(int k = (int)choose(3); k-- > 0;) {
      S id = "x" + std::to_string(k), sys = "sim:" + id; inner += "<!ENTITY " + id + " SYSTEM '" + sys + "'>";
      ext[sys] = content(2); general.push_back(id);
    }
    if(dtd) {
      S& d = ext["sim:dtd"]; S t;
      for(int k = (int)choose(5); k-- > 0;) t += chance(1, 5) ? "<![INCLUDE[" + decl(0) + "]]>" : chance(1, 6) ? "<![IGNORE[ <!ELEMENT z ANY> ]]>" : decl(0);
      d = t; sim::probe("external-subset");
    }
    bytes = head + "[" + inner + "]>\n" + (coin() ? "<!--after-->" : "") + "<r>" + content(0) + "</r>" + (coin() ? "<?last one?>" : "");
  }
};
template<class st> void pieces() {
  typedef typename Readers<st>::R R; typedef Arabica::SAX::Writer<st, Arabica::default_string_adaptor<st>> W;
  bool wide = sizeof(typename st::value_type) > 1;
  Set set; set.backend = EXPAT; set.prefixes = set.namespaces = true;
  Pieces pc; pc.make();
  sim::note("document %s", sim::quote(pc.bytes, 4000).c_str()); for(auto& e : pc.ext) sim::note("%s: %s", e.first.c_str(), sim::quote(e.second, 1000).c_str());
  Recorder<st> rec;
  rec.resolve = [&](const S&, const S& sys, std::unique_ptr<std::istream>& s) { auto f = pc.ext.find(sys); if(f == pc.ext.end()) return false; s.reset(new sim::InStream(f->second, Split())); return true; };
  auto make = [&] { sim::Sut s; R* r = Readers<st>::make(EXPAT); Readers<st>::configure(*r, set); Arabica::SAX::FeatureNames<st> f; r->setFeature(f.external_general, true); return r; };
  R* r = make(); R* r2 = make(); { sim::Sut s; rec.attach(*r); }
  parse_with<st>(*r, pc.bytes, Split());
  if(rec.errors + rec.fatals) { sim::note("refused: %s", rec.first_error.c_str()); sim::probe("refused"); sim::Sut s; delete r; delete r2; return; }
  Events want = rec.events(); S ref;
  Sink<st> k; W* w; { sim::Sut s; w = make_writer(k.os, *r, 0, (W*)nullptr); rec.attach(*w); rec.attach(*r2); }
  sim::Split sp = sim::choose_split(pc.bytes.size());
  output<st>(k, Plan(), S(), "reference", [&] { rec.reset(); parse_with<st>(*w, pc.bytes, sp); sim::Shield sh; ref = k.got(); k.buf.clear(); });
  if(rec.events() != want) sim::expect_eq("passed-on", join(want), join(rec.events()), "events the Writer passed on");
  rec.reset();
  try { parse_with<st>(*r2, ref, Split()); } catch(const Arabica::SAX::SAXException& e) { sim::fail("reparse", S("what the Writer wrote does not parse: ") + e.what() + " in " + sim::quote(ref, 1500)); }
  if(rec.fatals + rec.errors) sim::fail("reparse", "what the Writer wrote does not parse: " + rec.first_error + " in " + sim::quote(ref, 1500));
  sim::expect_eq("round-trip", join(want), join(rec.events()), "parsed back from " + sim::quote(ref, 1500));
  bool failed = false; uint64_t shape = sim::hash_bytes(7 + wide, ref.data(), ref.size());
  for(int i = 0, n = 1 + (int)choose(3); i != n; ++i) {
    Plan p = choose_plan(to_units(ref, wide)); if(i + 1 == n) p.fail = false;
    failed = failed || p.fail;
    output<st>(k, p, ref, "Writer output " + std::to_string(i), [&] { parse_with<st>(*w, pc.bytes, sp); });
    shape = sim::hash_bytes(shape, &p.at, sizeof(p.at));
  }
  { sim::Sut s; delete w; delete r; delete r2; }
  if(failed) sim::nontrivial();
  sim::shape(shape);
  sim::sample(S("Writer, a document in ") + std::to_string(1 + pc.ext.size()) + " pieces" + (wide ? ", wide" : ""));
}
// ---------------------------------------------------------------- DOM output
template<class st> struct DomOut {
  typedef Arabica::DOM::Node<st> Node; typedef Arabica::DOM::Document<st> Document; typedef Arabica::DOM::Element<st> Element;
  static st f(const S& s) { return From<st>::s(s); }

  // content, whatever the prefixes
  static void content(const Node& n, Events& ev, S& text) {
    auto flush = [&] { if(!text.empty()) { ev.push_back("T " + text); text.clear(); } };
    typedef Arabica::DOM::Node_base B;
    switch(n.getNodeType()) {
      case B::TEXT_NODE: text += to_s(n.getNodeValue()); return;
      case B::CDATA_SECTION_NODE: {
        S v = to_s(n.getNodeValue()); if(v.empty()) return;
        if(text.empty() && !ev.empty() && ev.back() == "CD-") { ev.pop_back(); ev.back() += v; }
        else { flush(); ev.push_back("CD+"); ev.push_back("T " + v); }
        ev.push_back("CD-"); return; }
      case B::COMMENT_NODE: flush(); ev.push_back("C " + to_s(n.getNodeValue())); return;
      case B::PROCESSING_INSTRUCTION_NODE: flush(); ev.push_back("P " + to_s(n.getNodeName()) + " " + to_s(n.getNodeValue())); return;
      case B::DOCUMENT_TYPE_NODE: return;
      case B::ELEMENT_NODE: {
        flush();
        auto name = [](const Node& x) { S u = to_s(x.getNamespaceURI()); return "{" + u + "}" + (u.empty() ? to_s(x.getNodeName()) : to_s(x.getLocalName())); };
        std::vector<S> at;
        Arabica::DOM::NamedNodeMap<st> m = n.getAttributes();
        for(unsigned i = 0; i < m.getLength(); ++i) {
          Node a = m.item(i); S q = to_s(a.getNodeName());
          if(q == "xmlns" || q.compare(0, 6, "xmlns:") == 0) continue;
          at.push_back(name(a) + "=" + to_s(a.getNodeValue()));
        }
        std::sort(at.begin(), at.end());
        S e = name(n); for(auto& x : at) e += " [" + x + "]";
        ev.push_back("SE " + e);
        for(Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) content(c, ev, text);
        flush();
        ev.push_back("EE"); return; }
      default: for(Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) content(c, ev, text);
    }
  }
  static Events content(const Node& n) { Events ev; S text; content(n, ev, text); if(!text.empty()) ev.push_back("T " + text); return ev; }

  bool wide; Document doc; std::vector<Node> loose; int budget = 15;
  DomOut() : wide(sizeof(typename st::value_type) > 1) { }
  S text() { static const std::vector<S> w = { "a", "<", ">", "&", "\"", "'", "\r", "\n", "\t", "]]>", "]]", "caf\xc3\xa9", "\xe2\x82\xac", " ", "&amp;", "text", "\r\n" }; S r; for(int n = (int)choose(6); n-- > 0;) r += sim::pick(w); return r; }
  S cdata() { static const std::vector<S> w = { "a", "]]>", "]", "]]", ">", "<", "&", "\xc3\xa9", "\n", "]]>]]>" }; S r; for(int n = (int)choose(7); n-- > 0;) r += sim::pick(w); return r; }
  S prefix() { static const std::vector<S> p = { "", "p", "q", "a0", "a1" }; return sim::pick(p); }
  S uri() { static const std::vector<S> u = { "", "urn:1", "urn:2", "urn:\"3\"&<", "urn:1/" }; return sim::pick(u); }
  S local() { static const std::vector<S> l = { "e", "item", "a0", "n\xc3\xa9" }; return sim::pick(l); }
  Element element(int depth) {
    --budget;
    Element e;
    uint32_t k = choose(8);
    if(k == 7) e = doc.createElement(f(local()));
    else { S u = uri(), p = prefix(); if(u.empty()) p.clear(); e = doc.createElementNS(f(u), f(p.empty() ? local() : p + ":" + local())); }
    for(int n = (int)choose(4); n-- > 0;) switch(choose(6)) {
      case 0: e.setAttribute(f("plain" + std::to_string(n)), f(text())); break;
      case 1: e.setAttributeNS(f(XMLNS), f("xml:lang"), f("en")); break;
      case 2: { S p = prefix(); e.setAttributeNS(f(XMLNSNS), f(p.empty() ? "xmlns" : "xmlns:" + p), f(uri())); break; }
      default: { S u = uri(), p = prefix(); if(u.empty()) u = "urn:1"; e.setAttributeNS(f(u), f(p.empty() ? local() : p + ":" + local()), f(text())); }
    }
    if(depth < 5) for(int n = sim::small(6); n-- > 0 && budget > 0;) e.appendChild(any(depth + 1));
    return e;
  }
  Node misc() { return coin() ? (Node)doc.createComment(f(coin() ? "a comment" : "<&>\xc3\xa9 - x")) : (Node)doc.createProcessingInstruction(f("target"), f(coin() ? "" : "da<ta&>")); }
  Node any(int depth) {
    switch(choose(7)) {
      case 0: case 1: case 2: return element(depth);
      case 3: case 4: return doc.createTextNode(f(text()));
      case 5: return doc.createCDATASection(f(cdata()));
      default: return misc();
    }
  }
  void build() {
    sim::Sut s;
    doc = Arabica::SimpleDOM::DOMImplementation<st>::getDOMImplementation().createDocument(st(), st(), 0);
    if(chance(1, 3)) doc.appendChild(misc());
    doc.appendChild(element(0));
    if(chance(1, 3)) doc.appendChild(misc());
    if(chance(1, 2)) { budget = 6; loose.push_back(element(0)); }
    if(chance(1, 2)) { budget = 6; Arabica::DOM::DocumentFragment<st> fr = doc.createDocumentFragment(); for(int n = (int)choose(4); n-- > 0;) fr.appendChild(any(3)); loose.push_back(fr); }
    if(chance(1, 4)) loose.push_back(any(5));
  }
  static Document reparse(const S& bytes) {
    Arabica::SAX2DOM::Parser<st, Arabica::SAX::expat_wrapper<st>> p; Arabica::SAX::CatchErrorHandler<st> eh;
    sim::InStream* s = new sim::InStream(bytes, Split());
    Arabica::SAX::InputSource<st> src((std::unique_ptr<std::istream>(s)));
    sim::Sut sut;
    p.setErrorHandler(eh);
    bool ok = p.parse(src);
    if(!ok || eh.errorsReported()) { sim::Shield sh; sim::fail("reparse", "what DOM output wrote does not parse: " + to_s(eh.errors()) + " in " + sim::quote(bytes, 1500)); }
    return p.getDocument();
  }
  void pool(const Node& n, std::vector<Node>& out) { out.push_back(n); for(Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) if(c.getNodeType() == Arabica::DOM::Node_base::ELEMENT_NODE) pool(c, out); }
  struct Item { Node n; S ref; };
  void run() {
    bool built = !chance(1, 4);
    if(built) build();
    else {
      Opt o = options(EXPAT); o.align = false; o.budget = 20;
      Set set; set.backend = EXPAT; set.prefixes = set.namespaces = true;
      Case c = make_case(EXPAT, set, o);
      doc = reparse(c.bytes);
    }
    std::vector<Node> nodes; { sim::Sut s; pool(doc, nodes); for(auto& l : loose) pool(l, nodes); }
    std::vector<Item> items;
    uint64_t shape = wide;
    for(int i = 0, n = 1 + (int)choose(3); i != n; ++i) {
      Item it; it.n = i == 0 ? nodes[0] : nodes[choose((uint32_t)nodes.size())];
      Sink<st> k;
      { sim::Sut s; k.os << it.n; }
      if(!k.os) sim::fail("good-sink", "the stream failed on a good sink");
      it.ref = k.got();
      Events before; { sim::Sut s; before = content(it.n); }
      bool whole = it.n.getNodeType() == Arabica::DOM::Node_base::DOCUMENT_NODE;
      S xml = whole ? it.ref : "<?xml version='1.0'?><wrap>" + it.ref + "</wrap>";
      if(to_s(it.n.getNodeName()) == "#document-fragment") sim::probe("fragment");
      if(it.n.getNodeType() == Arabica::DOM::Node_base::ELEMENT_NODE && it.n.getParentNode() == 0) sim::probe("orphan");
      Document d2 = reparse(xml);
      Events after; { sim::Sut s; after = content(whole ? (Node)d2 : (Node)d2.getDocumentElement()); }
      if(!whole) { after.erase(after.begin()); after.pop_back(); }
      if(before != after) sim::expect_eq("dom-round-trip", join(before), join(after), "parsed back from " + sim::quote(it.ref, 1500));
      shape = sim::hash_bytes(shape, it.ref.data(), it.ref.size());
      items.push_back(it);
    }
    Sink<st> k; size_t base = 0; bool failed = false;
    for(int i = 0, n = 2 + (int)choose(5); i != n; ++i) {
      Item& it = items[choose((uint32_t)items.size())];
      Plan p = choose_plan(to_units(it.ref, wide)); if(i + 1 == n || it.ref.empty()) p.fail = false;
      if(i == 0) p.fail = false;
      failed = failed || p.fail;
      output<st>(k, p, it.ref, "DOM output " + std::to_string(i) + " of " + to_s(it.n.getNodeName()), [&] { k.os << it.n; });
      shape = sim::hash_bytes(shape, &p.at, sizeof(p.at)); shape = sim::hash_bytes(shape, &p.f, sizeof(p.f));
      if(i == 0) base = sim::live_blocks();
      else if(sim::live_blocks() > base) sim::fail("output-leak", "output left " + std::to_string(sim::live_blocks() - base) + " blocks behind" + sim::live_report());
    }
    if(failed) sim::nontrivial();
    sim::shape(shape);
    sim::sample(S("DOM output") + (wide ? " wide " : " ") + (built ? "built" : "parsed") + " " + sim::quote(items[0].ref, 200));
  }
};

void p08() {
  sim::heap_choose_policy();
  switch(choose(9)) {
    case 0: case 1: writers<std::string, Arabica::SAX::Writer<std::string, Arabica::default_string_adaptor<std::string>>>(false); break;
    case 2: writers<std::wstring, Arabica::SAX::Writer<std::wstring, Arabica::default_string_adaptor<std::wstring>>>(false); break;
    case 3: if(coin()) writers<std::string, Arabica::SAX::PYXWriter<std::string, Arabica::default_string_adaptor<std::string>>>(true);
            else writers<std::wstring, Arabica::SAX::PYXWriter<std::wstring, Arabica::default_string_adaptor<std::wstring>>>(true); break;
    case 4: case 5: case 6: { DomOut<std::string> d; d.run(); break; }
    case 7: { DomOut<std::wstring> d; d.run(); break; }
    case 8: if(chance(1, 3)) pieces<std::wstring>(); else pieces<std::string>(); break;
  }
}
void warm() {
  simsax::warm_parsers();
}
sim::Reg r08("P08", p08, warm, 400000000ull);
} // namespace
