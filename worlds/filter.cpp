// P06: chains of SAX filters over a simulated event source (or Expat), documents abandoned at any event.
#include "../sim/sax.hpp"
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/filter/XMLBaseTracker.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <SAX/filter/Writer.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <sstream>
using namespace simsax;

__attribute__((weak)) void simsax::warm_parsers() { }

namespace {
const S XMLNS = "http://www.w3.org/XML/1998/namespace";

struct At { S uri, local, qname, type, value; };
struct Ev { S k; std::vector<S> a; std::vector<At> at; std::vector<S> pieces; };

S last_line(const S& s) { return s.substr(s.rfind('\n') + 1); }
S render(const Ev& e) {
  S r = e.k;
  for(auto& x : e.a) r += " {" + x + "}";
  for(auto& x : e.at) r += " [" + x.uri + "|" + x.local + "|" + x.qname + "|" + x.type + "=" + x.value + "]";
  return r;
}

// ---------------------------------------------------------------- the source: replays model events
struct SourceError : std::runtime_error { SourceError() : std::runtime_error("source gave up") { } };

template<class st>
class Synth : public Arabica::SAX::XMLReaderInterface<st, Arabica::default_string_adaptor<st> > {
public:
  typedef Arabica::default_string_adaptor<st> SA;
  typedef Arabica::SAX::XMLReaderInterface<st, SA> Base;
  typedef typename Base::EntityResolverT EntityResolverT; typedef typename Base::DTDHandlerT DTDHandlerT; typedef typename Base::ContentHandlerT ContentHandlerT;
  typedef typename Base::InputSourceT InputSourceT; typedef typename Base::ErrorHandlerT ErrorHandlerT; typedef typename Base::DeclHandlerT DeclHandlerT; typedef typename Base::LexicalHandlerT LexicalHandlerT;
  bool getFeature(const st& n) const override { sim::Shield sh; auto f = features.find(to_s(n)); if(f == features.end()) throw Arabica::SAX::SAXNotRecognizedException("Feature: " + to_s(n)); return f->second; }
  void setFeature(const st& n, bool v) override { sim::Shield sh; features[to_s(n)] = v; }
  void setEntityResolver(EntityResolverT& r) override { er = &r; } EntityResolverT* getEntityResolver() const override { return er; }
  void setDTDHandler(DTDHandlerT& r) override { dh = &r; } DTDHandlerT* getDTDHandler() const override { return dh; }
  void setContentHandler(ContentHandlerT& r) override { ch = &r; } ContentHandlerT* getContentHandler() const override { return ch; }
  void setErrorHandler(ErrorHandlerT& r) override { eh = &r; } ErrorHandlerT* getErrorHandler() const override { return eh; }
  void setDeclHandler(DeclHandlerT& r) override { xh = &r; } DeclHandlerT* getDeclHandler() const override { return xh; }
  void setLexicalHandler(LexicalHandlerT& r) override { lh = &r; } LexicalHandlerT* getLexicalHandler() const override { return lh; }
  void parse(InputSourceT& in) override {
    S sys; { sim::Shield sh; sys = to_s(in.getSystemId()); if(sys != want_sys) sim::fail("input-source", "the reader was handed source " + sys + ", not " + want_sys); }
    if(locate) { loc.setSystemId(f(sys)); ch->setDocumentLocator(loc); }
    long n = 0; stopped = false;
    for(auto& e : *events) {
      if(n == stop_at) {
        stopped = true; sim::fault(stop_kind == 0 ? "source-throws" : stop_kind == 1 ? "source-stops" : "source-stops-after-endDocument");
        if(stop_kind == 0) throw SourceError();
        if(stop_kind == 2) ch->endDocument();
        return;
      }
      send(e, n);
    }
  }
  const std::vector<Ev>* events = nullptr;
  long stop_at = -1; int stop_kind = 0; bool locate = false, stopped = false; S want_sys;
  std::map<S, bool> features;
private:
  st f(const S& s) { return From<st>::s(s); }
  void send(const Ev& e, long& n) {
    ++n;
    const S& k = e.k; auto A = [&](size_t i) { return f(e.a[i]); };
    if(k == "T") { bool first = true; for(auto& p : e.pieces) { if(!first && n++ == stop_at) { --n; stop_at = n; return; } first = false; ch->characters(f(p)); } }
    else if(k == "IW") { for(auto& p : e.pieces) ch->ignorableWhitespace(f(p)); }
    else if(k == "SD") ch->startDocument();
    else if(k == "ED") ch->endDocument();
    else if(k == "PM+") ch->startPrefixMapping(A(0), A(1));
    else if(k == "PM-") ch->endPrefixMapping(A(0));
    else if(k == "SE") { Arabica::SAX::AttributesImpl<st, SA> at; for(auto& x : e.at) at.addAttribute(f(x.uri), f(x.local), f(x.qname), f(x.type), f(x.value)); ch->startElement(A(0), A(1), A(2), at); }
    else if(k == "EE") ch->endElement(A(0), A(1), A(2));
    else if(k == "P") ch->processingInstruction(A(0), A(1));
    else if(k == "SKIP") ch->skippedEntity(A(0));
    else if(k == "C") lh->comment(A(0));
    else if(k == "CD+") lh->startCDATA();
    else if(k == "CD-") lh->endCDATA();
    else if(k == "ENT+") lh->startEntity(A(0));
    else if(k == "ENT-") lh->endEntity(A(0));
    else if(k == "DTD+") lh->startDTD(A(0), A(1), A(2));
    else if(k == "DTD-") lh->endDTD();
    else if(k == "ELD") xh->elementDecl(A(0), A(1));
    else if(k == "ATD") xh->attributeDecl(A(0), A(1), A(2), A(3), A(4));
    else if(k == "IED") xh->internalEntityDecl(A(0), A(1));
    else if(k == "XED") xh->externalEntityDecl(A(0), A(1), A(2));
    else if(k == "ND") dh->notationDecl(A(0), A(1), A(2));
    else if(k == "UED") dh->unparsedEntityDecl(A(0), A(1), A(2), A(3));
    else if(k == "RE") { InputSourceT r = er->resolveEntity(A(0), A(1)); sim::Shield sh; if(to_s(r.getSystemId()) != "resolved:" + e.a[1]) sim::fail("resolver-result", "the resolver's answer did not arrive: " + to_s(r.getSystemId())); }
    else if(k == "W" || k == "E" || k == "F") {
      Arabica::SAX::SAXParseException<st, SA> x(e.a[0], f(""), f("sys"), 1, 2);
      if(k == "W") eh->warning(x); else if(k == "E") eh->error(x); else eh->fatalError(x);
    } else sim::harness_error("event " + k);
  }
  EntityResolverT* er = nullptr; DTDHandlerT* dh = nullptr; ContentHandlerT* ch = nullptr; ErrorHandlerT* eh = nullptr; DeclHandlerT* xh = nullptr; LexicalHandlerT* lh = nullptr;
  struct Loc : Arabica::SAX::Locator<st, SA> {
    st sys; void setSystemId(const st& s) { sys = s; }
    st getPublicId() const override { return st(); } st getSystemId() const override { return sys; } size_t getLineNumber() const override { return 1; } size_t getColumnNumber() const override { return 1; }
  } loc;
};

// ---------------------------------------------------------------- the client: records what leaves the chain
template<class st>
class Client : public Arabica::SAX::DefaultHandler<st> {
public:
  typedef Arabica::SAX::DefaultHandler<st> Base;
  typedef typename Base::InputSourceT InputSourceT; typedef typename Base::LocatorT LocatorT; typedef typename Base::AttributesT AttributesT; typedef typename Base::SAXParseExceptionT X;
  std::vector<Ev> ev; long throw_at = -1; bool thrown = false; std::function<void(const char*)> query; S located;
  void add(const char* k, std::vector<S> a = {}) { add(Ev{ k, a }); }
  void add(const Ev& e) {
    if(thrown) sim::fail("callback-after-exception", e.k + " after a handler had thrown");
    ev.push_back(e); if(sim::comparing) sim::result("event", render(e));
    if(query) query(e.k.c_str());
    if(throw_at >= 0 && throw_at-- == 0) { thrown = true; sim::fault("client-throws"); throw Boom{ 1 }; }
  }
  InputSourceT resolveEntity(const st& p, const st& s) override { sim::Shield sh; add("RE", { to_s(p), to_s(s) }); InputSourceT r(From<st>::s("resolved:" + to_s(s))); return r; }
  void notationDecl(const st& n, const st& p, const st& s) override { sim::Shield sh; add("ND", { to_s(n), to_s(p), to_s(s) }); }
  void unparsedEntityDecl(const st& n, const st& p, const st& s, const st& x) override { sim::Shield sh; add("UED", { to_s(n), to_s(p), to_s(s), to_s(x) }); }
  void setDocumentLocator(const LocatorT& l) override { sim::Shield sh; located = to_s(l.getSystemId()); }
  void startDocument() override { sim::Shield sh; add("SD"); }
  void endDocument() override { sim::Shield sh; add("ED"); }
  void startPrefixMapping(const st& p, const st& u) override { sim::Shield sh; add("PM+", { to_s(p), to_s(u) }); }
  void endPrefixMapping(const st& p) override { sim::Shield sh; add("PM-", { to_s(p) }); }
  void startElement(const st& u, const st& l, const st& q, const AttributesT& a) override {
    sim::Shield sh;
    Ev e{ "SE", { to_s(u), to_s(l), to_s(q) } };
    for(int i = 0; i != a.getLength(); ++i) e.at.push_back({ to_s(a.getURI(i)), to_s(a.getLocalName(i)), to_s(a.getQName(i)), to_s(a.getType(i)), to_s(a.getValue(i)) });
    add(e);
  }
  void endElement(const st& u, const st& l, const st& q) override { sim::Shield sh; add("EE", { to_s(u), to_s(l), to_s(q) }); }
  void characters(const st& c) override { sim::Shield sh; add("T", { to_s(c) }); }
  void ignorableWhitespace(const st& c) override { sim::Shield sh; add("IW", { to_s(c) }); }
  void processingInstruction(const st& t, const st& d) override { sim::Shield sh; add("P", { to_s(t), to_s(d) }); }
  void skippedEntity(const st& n) override { sim::Shield sh; add("SKIP", { to_s(n) }); }
  void warning(const X& e) override { sim::Shield sh; add("W", { last_line(e.what()) }); }
  void error(const X& e) override { sim::Shield sh; add("E", { last_line(e.what()) }); }
  void fatalError(const X& e) override { sim::Shield sh; add("F", { last_line(e.what()) }); }
  void startDTD(const st& n, const st& p, const st& s) override { sim::Shield sh; add("DTD+", { to_s(n), to_s(p), to_s(s) }); }
  void endDTD() override { sim::Shield sh; add("DTD-"); }
  void startEntity(const st& n) override { sim::Shield sh; add("ENT+", { to_s(n) }); }
  void endEntity(const st& n) override { sim::Shield sh; add("ENT-", { to_s(n) }); }
  void startCDATA() override { sim::Shield sh; add("CD+"); }
  void endCDATA() override { sim::Shield sh; add("CD-"); }
  void comment(const st& c) override { sim::Shield sh; add("C", { to_s(c) }); }
  void elementDecl(const st& n, const st& m) override { sim::Shield sh; add("ELD", { to_s(n), to_s(m) }); }
  void attributeDecl(const st& e, const st& a, const st& t, const st& d, const st& v) override { sim::Shield sh; add("ATD", { to_s(e), to_s(a), to_s(t), to_s(d), to_s(v) }); }
  void internalEntityDecl(const st& n, const st& v) override { sim::Shield sh; add("IED", { to_s(n), to_s(v) }); }
  void externalEntityDecl(const st& n, const st& p, const st& s) override { sim::Shield sh; add("XED", { to_s(n), to_s(p), to_s(s) }); }
  template<class R> void attach(R& r) { r.setContentHandler(*this); r.setDTDHandler(*this); r.setErrorHandler(*this); r.setEntityResolver(*this); r.setLexicalHandler(*this); r.setDeclHandler(*this); }
};

// ---------------------------------------------------------------- the document model
struct EvGen {
  std::vector<Ev> out; int budget; bool ns, lex, dtd, errs;
  void add(const char* k, std::vector<S> a = {}) { out.push_back(Ev{ k, a }); }
  bool is_text_(size_t i) const { return i < out.size() && (out[i].k == "T" || out[i].k == "IW"); }   // problems are not reported inside a text run
  static S word() { static const std::vector<S> w = { "a", "text", "Hello", "w\xc3\xb6rld", "\xe2\x82\xac" "5", "x<y&z", "end." }; return sim::pick(w); }
  static S space() { static const std::vector<S> w = { " ", "\n", "  ", "\t", " \r\n  " }; return sim::pick(w); }
  void split(Ev& e) {
    auto cps = codepoints(e.a[0]);
    S cur; uint32_t mode = choose(4);
    for(size_t i = 0; i != cps.size(); ++i) { cur += utf8(cps[i]); if(mode == 3 || (mode == 1 && chance(1, 3)) || (mode == 2 && chance(1, 8))) { e.pieces.push_back(cur); cur.clear(); if(chance(1, 20)) e.pieces.push_back(""); } }
    if(!cur.empty() || e.pieces.empty()) e.pieces.push_back(cur);
    if(e.pieces.size() > 1) sim::fault("text-split");
  }
  void text() {
    Ev e{ "T" }; S t; int n = 1 + sim::small(8);
    if(chance(1, 40)) n = 200 + choose(2000);
    for(int i = 0; i != n; ++i) t += coin() ? word() : space();
    if(chance(1, 6)) t = space() + space();
    e.a.push_back(t); split(e);
    out.push_back(e);
    if(errs && !is_text_(out.size() - 2) && chance(1, 10)) { static const char* k[] = { "W", "E" }; out.insert(out.end() - 1, Ev{ k[choose(2)], { "message" + std::to_string(choose(9)) } }); }
  }
  void misc() {
    switch(choose(3)) { case 0: add("P", { "target", word() }); break; case 1: add("C", { word() }); break; case 2: if(errs && !is_text_(out.size() - 1)) add(coin() ? "W" : "E", { "trouble" }); else add("P", { "t", "" }); break; }
  }
  void element(int depth) {
    --budget;
    static const std::vector<S> prefixes = { "", "p", "q", "long-prefix" }, uris = { "urn:one", "urn:two", "http://ns/three" };
    static const std::vector<S> bases = { "sub/", "http://g.example/q/", "other/file.xml", "/rooted/dir/", "x.xml", "" };
    std::vector<S> declared;
    if(ns) for(int n = (int)choose(4); n-- > 0;) {
      S p = sim::pick(prefixes);
      if(std::find(declared.begin(), declared.end(), p) != declared.end()) continue;
      declared.push_back(p);
      add("PM+", { p, p.empty() && chance(1, 3) ? S() : sim::pick(uris) });
    }
    static const std::vector<S> names = { "e", "item", "sec\xc3\xa9" };
    Ev e{ "SE", { coin() ? "urn:one" : "", sim::pick(names), "" } };
    e.a[2] = e.a[0].empty() ? e.a[1] : "p:" + e.a[1];
    int na = (int)choose(3);
    for(int i = 0; i != na; ++i) e.at.push_back({ "", "at" + std::to_string(i), "at" + std::to_string(i), "CDATA", coin() ? word() : S("v\n\"<") });
    if(chance(1, 3)) e.at.push_back({ XMLNS, "base", "xml:base", "CDATA", sim::pick(bases) });
    S u = e.a[0], l = e.a[1], q = e.a[2];
    out.push_back(e);
    int kids = depth > 5 ? 0 : (int)choose(5);
    for(int i = 0; i != kids && budget > 0; ++i) {
      uint32_t k = choose(10);
      if(k < 3) text();
      else if(k < 6) element(depth + 1);
      else if(k == 6) { Ev w{ "IW", { space() } }; split(w); out.push_back(w); }
      else if(k == 7 && lex) { add("CD+"); if(coin()) text(); add("CD-"); }
      else if(k == 8 && lex) { S n = coin() ? "ent" : "other"; add("ENT+", { n }); if(coin()) text(); if(coin()) element(depth + 1); add("ENT-", { n }); }
      else if(k == 8) add("SKIP", { "ent" });
      else misc();
    }
    add("EE", { u, l, q });
    for(size_t i = declared.size(); i-- > 0;) add("PM-", { declared[i] });
  }
  void doc() {
    budget = 3 + sim::small(30);
    ns = !chance(1, 5); lex = coin(); dtd = chance(1, 4); errs = chance(1, 4);
    add("SD");
    if(chance(1, 4)) misc();
    if(dtd) {
      add("DTD+", { "e", coin() ? "-//pub" : "", coin() ? "sys.dtd" : "" });
      for(int n = (int)choose(7); n-- > 0;) switch(choose(9)) {
        case 0: add("ELD", { "e", "(a|b)*" }); break;
        case 1: add("ATD", { "e", "at", "CDATA", "#FIXED", "v" }); break;
        case 2: add("IED", { "ent", "value" }); break;
        case 3: add("XED", { "xent", "pub", "sys" }); break;
        case 4: add("ND", { "n", "", "sys" }); break;
        case 5: add("UED", { "u", "pub", "sys", "n" }); break;
        case 6: add("RE", { "pub", "http://h/ent" }); break;
        case 7: add("ENT+", { "[dtd]" }); add("ELD", { "z", "ANY" }); add("ENT-", { "[dtd]" }); break;
        case 8: add("C", { "in dtd" }); break;
      }
      add("DTD-");
    }
    element(0);
    if(chance(1, 4)) misc();
    if(chance(1, 12)) add("F", { "fatal" });
    add("ED");
  }
};

// ---------------------------------------------------------------- model of each filter
enum { TC, WS, NT, XB, PYX, WR, KINDS };
const char* kind_name(int k) { static const char* n[] = { "TextCoalescer", "WhitespaceStripper", "NamespaceTracker", "XMLBaseTracker", "PYXWriter", "Writer" }; return n[k]; }

bool is_text(const Ev& e) { return e.k == "T" || e.k == "IW"; }
S normalized(const S& s) {
  S r; bool gap = false;
  for(char c : s) { if(c == ' ' || c == '\t' || c == '\n' || c == '\r') { gap = !r.empty(); continue; } if(gap) r += ' '; gap = false; r += c; }
  return r;
}
// adjacent pieces joined
std::vector<Ev> joined(const std::vector<Ev>& in, bool across) {
  std::vector<Ev> r;
  for(auto& e : in) {
    if(is_text(e) && !r.empty() && is_text(r.back()) && (across || r.back().k == e.k)) { r.back().a[0] += e.a[0]; continue; }
    r.push_back(e);
    if(across && e.k == "IW") r.back().k = "T";
  }
  return r;
}
std::vector<Ev> no_empty(const std::vector<Ev>& in) { std::vector<Ev> r; for(auto& e : in) if(!is_text(e) || !e.a[0].empty()) r.push_back(e); return r; }
std::vector<Ev> model(int kind, std::vector<Ev> in) {
  if(kind == TC) return no_empty(joined(in, true));
  if(kind == WS) {
    std::vector<Ev> t; for(auto& e : in) if(e.k != "IW") t.push_back(e);
    t = joined(t, true);
    for(auto& e : t) if(e.k == "T") e.a[0] = normalized(e.a[0]);
    return no_empty(t);
  }
  return in;
}

// ---------------------------------------------------------------- expected answers of the trackers
S resolve(const S& base, const S& rel) {
  if(rel.empty()) return base;
  if(rel.find("://") != S::npos) return rel;
  size_t p = base.find("://"); S auth, path = base;
  if(p != S::npos) { size_t q = base.find('/', p + 3); if(q == S::npos) q = base.size(); auth = base.substr(0, q); path = base.substr(q); }
  if(rel[0] == '/') return auth + rel;
  return auth + path.substr(0, path.rfind('/') + 1) + rel;
}
struct Answers {                    // by number of SE/EE events passed
  std::vector<S> ns, base;
};
S ns_answer(const std::function<S(const S&)>& uri, const std::map<S, S>& scope) {
  S r;
  for(auto p : { "", "p", "q", "long-prefix", "xml", "nobody" }) r += S(p) + "=" + uri(p) + ";";
  r += "|"; for(auto& x : scope) r += x.first + "=" + x.second + ";";
  return r;
}
Answers answers(const std::vector<Ev>& in, const S& location) {
  Answers an; std::vector<std::map<S, S> > st(1); st[0]["xml"] = XMLNS; std::map<S, S> pend; std::vector<S> bases(1, location);
  for(auto& e : in) {
    if(e.k == "PM+") pend[e.a[0]] = e.a[1];
    if(e.k == "SE") {
      auto m = st.back(); for(auto& x : pend) m[x.first] = x.second; pend.clear(); st.push_back(m);
      S b = bases.back(); for(auto& a : e.at) if(a.uri == XMLNS && a.local == "base" && !a.value.empty()) b = resolve(b, a.value); bases.push_back(b);
    }
    if(e.k == "SE" || e.k == "EE") {
      auto m = st.back(); m.insert({ "", "" });
      an.ns.push_back(ns_answer([&](const S& p) { auto f = m.find(p); return f == m.end() ? S() : f->second; }, m));
      an.base.push_back(bases.back() + " " + resolve(bases.back(), "rel.xml") + " " + resolve(bases.back(), "http://abs/x") + " " + resolve(bases.back(), "/r"));
    }
    if(e.k == "EE") { st.pop_back(); bases.pop_back(); }
  }
  return an;
}

// ---------------------------------------------------------------- chains
template<class st> struct Chain {
  typedef Arabica::default_string_adaptor<st> SA;
  typedef typename SA::value_type chT;
  typedef Arabica::SAX::XMLReaderInterface<st, SA> R;
  typedef Arabica::SAX::XMLFilterImpl<st, SA> F;
  std::vector<int> kinds; std::vector<F*> filters; std::vector<std::basic_ostringstream<chT>*> outs;
  std::vector<Arabica::SAX::NamespaceTracker<st, SA>*> nts; std::vector<Arabica::SAX::XMLBaseTracker<st, SA>*> xbs;
  Client<st> client; R* parent; std::vector<S> located;
  Chain(const std::vector<int>& k, R* src, unsigned indent, bool link_late) : kinds(k), parent(src) {
    for(int x : kinds) {
      std::basic_ostringstream<chT>* o = new std::basic_ostringstream<chT>; outs.push_back(o);
      F* f = nullptr;
      { sim::Sut s;
        switch(x) {
          case TC: f = link_late ? new Arabica::SAX::TextCoalescer<st, SA>() : new Arabica::SAX::TextCoalescer<st, SA>(*parent); break;
          case WS: f = link_late ? new Arabica::SAX::WhitespaceStripper<st, SA>() : new Arabica::SAX::WhitespaceStripper<st, SA>(*parent); break;
          case NT: { auto t = link_late ? new Arabica::SAX::NamespaceTracker<st, SA>() : new Arabica::SAX::NamespaceTracker<st, SA>(*parent); f = t; sim::Shield sh; nts.push_back(t); break; }
          case XB: { auto t = link_late ? new Arabica::SAX::XMLBaseTracker<st, SA>() : new Arabica::SAX::XMLBaseTracker<st, SA>(*parent); f = t; sim::Shield sh; xbs.push_back(t); break; }
          case PYX: f = link_late ? new Arabica::SAX::PYXWriter<st, SA>(*o) : new Arabica::SAX::PYXWriter<st, SA>(*o, *parent); break;
          case WR: f = link_late ? new Arabica::SAX::Writer<st, SA>(*o, indent) : new Arabica::SAX::Writer<st, SA>(*o, *parent, indent); break;
        }
        if(link_late) f->setParent(*parent);
      }
      if(f->getParent() != parent) sim::fail("parent", "getParent() does not return the parent");
      filters.push_back(f); parent = f;
    }
    sim::Sut s; client.attach(*parent);
  }
  ~Chain() { { sim::Sut s; for(size_t i = filters.size(); i-- > 0;) delete filters[i]; } for(auto o : outs) delete o; }
  std::vector<Ev> model_of(std::vector<Ev> in) const { for(int k : kinds) in = model(k, in); return in; }
  bool exact() const { for(int k : kinds) if(k == TC || k == WS) return true; return false; }
  bool buffers_after(int k) const { bool seen = false; for(int x : kinds) { if(x == k) seen = true; else if(seen && (x == TC || x == WS)) return true; } return false; }
};

S render_all(const std::vector<Ev>& v) { S r; for(auto& e : v) { r += render(e); r += '\n'; } return r; }

template<class st> void run_filters() {
  typedef Chain<st> C;
  sim::heap_choose_policy();
  bool real = chance(1, 4);
  std::vector<int> kinds; int n = 1 + (int)choose(4);
  for(int i = 0; i != n; ++i) kinds.push_back((int)choose(KINDS));
  unsigned indent = choose(3) * 2; bool link_late = coin();
  S desc; for(int k : kinds) desc += S(desc.empty() ? "" : " > ") + kind_name(k);
  sim::log("chain %s%s, %s", desc.c_str(), real ? " over Expat" : "", sizeof(typename C::chT) == 1 ? "narrow" : "wide");
  Synth<st> synth; synth.locate = coin();
  typename C::R* expat = nullptr; if(real) { sim::Sut s; expat = Readers<st>::make(EXPAT); }
  struct Kill { typename C::R* r; ~Kill() { sim::Sut s; delete r; } } kill{ expat };
  typename C::R* src = real ? expat : &synth;
  C chain(kinds, src, indent, link_late);
  if(!real) {
    Arabica::SAX::XMLReaderInterface<st, typename C::SA>& r = *chain.parent;
    bool v = coin(); { sim::Sut s; r.setFeature(From<st>::s("urn:feature"), v); }
    if(!synth.features.count("urn:feature") || synth.features["urn:feature"] != v || r.getFeature(From<st>::s("urn:feature")) != v) sim::fail("feature", "a feature set on the chain did not reach the reader");
    bool refused = false; try { sim::Sut s; r.getFeature(From<st>::s("urn:unknown")); } catch(Arabica::SAX::SAXNotRecognizedException&) { refused = true; }
    if(!refused) sim::fail("feature", "an unknown feature was not refused");
  }
  S explicit_loc; if(!chain.xbs.empty() && chance(1, 3)) { explicit_loc = "http://explicit/dir/doc.xml"; sim::Sut s; for(auto x : chain.xbs) x->setDocumentLocation(From<st>::s(explicit_loc)); }
  bool upset = false;
  int docs = (int)choose(4);
  for(int d = 0; d <= docs; ++d) {
    bool last = d == docs;
    std::vector<Ev> in; S bytes; sim::Split sp;
    if(real) {
      Opt o; o.budget = 20; Gen g(o); Doc doc = g.doc(); serialise(doc); bytes = encode(doc.text, doc.encoding); sp = sim::choose_split(bytes.size());
      sim::InStream is(bytes, sp); Client<st> raw; typename C::R* r; { sim::Sut s; r = Readers<st>::make(EXPAT); raw.attach(*r); }
      Arabica::SAX::InputSource<st> s2(is); { sim::Sut s; r->parse(s2); delete r; }
      in = raw.ev;
      sim::note("doc %d: %s", d, sim::quote(bytes, 1500).c_str());
      sim::shape(sim::hash_str(bytes)); for(auto x : sp.sizes) sim::shape(x);
    } else {
      EvGen g; g.doc(); in = g.out;
      if(sim::tracing) for(auto& e : in) { S p; for(auto& x : e.pieces) p += "|" + x; sim::note("  %s%s", sim::quote(render(e), 300).c_str(), e.pieces.size() > 1 ? sim::quote(p, 200).c_str() : ""); }
      for(auto& e : in) { sim::shape(sim::hash_str(render(e))); for(auto& x : e.pieces) sim::shape(x.size()); }
    }
    S sys = "http://h" + std::to_string(d) + ".example/dir/doc.xml";
    S location = !explicit_loc.empty() ? explicit_loc : real || synth.locate ? sys : S();
    if(!real && !synth.locate && d) location = explicit_loc;
    std::vector<Ev> flat = in;        // text unsplit
    std::vector<Ev> want = chain.model_of(joined(flat, false));
    Answers an = answers(in, location);
    synth.events = &in; synth.want_sys = sys; synth.stop_at = -1;
    Client<st>& c = chain.client; c.ev.clear(); c.thrown = false; c.throw_at = -1;
    uint32_t how = last ? 0 : choose(4);
    if(how == 1 && !real) { synth.stop_at = (long)choose((uint32_t)in.size() + 3); synth.stop_kind = (int)choose(3); }
    if(how >= 1 && (how == 2 || how == 3 || real)) c.throw_at = (long)choose((uint32_t)want.size() + 2);
    sim::log("document %d: %zu events, stop %ld kind %d throw %ld", d, in.size(), synth.stop_at, synth.stop_kind, c.throw_at);
    sim::shape(how * 100 + synth.stop_at); sim::shape(c.throw_at);
    // queries
    bool ask = !chance(1, 4); uint32_t lazy = choose(4); size_t idx = 0;
    c.query = [&](const char* k) {
      bool edge = !strcmp(k, "SE") || !strcmp(k, "EE");
      if(!edge) return;
      size_t i = idx++;
      if(!ask || (lazy && i % (lazy + 1))) return;
      for(auto t : chain.nts) {
        sim::Shield sh;
        std::map<st, st> m; { sim::Sut s; m = t->inScopeNamespaces(); }
        std::map<S, S> mm; for(auto& x : m) mm[to_s(x.first)] = to_s(x.second);
        S got = ns_answer([&](const S& p) { st r; { sim::Sut s; r = t->getURI(From<st>::s(p)); } return to_s(r); }, mm);
        if(i < an.ns.size() && got != an.ns[i]) sim::fail("namespaces", desc + ": document " + std::to_string(d) + ", element event " + std::to_string(i) + ": tracker says " + got + ", in scope are " + an.ns[i]);
        auto q = t->processElementName(From<st>::s("p:local")); S u = to_s(q.namespaceUri());
        S wantu = got.substr(got.find("p=") + 2); wantu = wantu.substr(0, wantu.find(';'));
        if(u != wantu || to_s(q.localName()) != "local") sim::fail("namespaces", "processElementName resolved p:local to " + u + ", expected " + wantu);
      }
      for(auto t : chain.xbs) {
        sim::Shield sh;
        S got; { st b, r, a, s1; { sim::Sut s; b = t->currentBase(); r = t->makeAbsolute(From<st>::s("rel.xml")); a = t->makeAbsolute(From<st>::s("http://abs/x")); s1 = t->makeAbsolute(From<st>::s("/r")); } got = to_s(b) + " " + to_s(r) + " " + to_s(a) + " " + to_s(s1); }
        if(i < an.base.size() && got != an.base[i]) sim::fail("base", desc + ": document " + std::to_string(d) + ", element event " + std::to_string(i) + ": tracker says " + got + ", expected " + an.base[i]);
      }
    };
    std::vector<size_t> marks; for(auto o : chain.outs) marks.push_back(o->str().size());
    auto go = [&](C& ch) {
      sim::InStream is(bytes, sp);
      if(real) { Arabica::SAX::InputSource<st> s(is); s.setSystemId(From<st>::s(sys)); sim::Sut sut; ch.parent->parse(s); }
      else { Arabica::SAX::InputSource<st> s(From<st>::s(sys)); sim::Sut sut; ch.parent->parse(s); }
    };
    int out = 0;
    try { go(chain); } catch(Boom&) { out = 1; } catch(SourceError&) { out = 2; } catch(std::exception& e) { sim::fail("exception", S("unexpected exception: ") + e.what()); }
    c.query = nullptr;
    if(c.thrown && out != 1) sim::fail("exception-lost", "the client threw but parse() returned");
    if(!real && !synth.stopped && !c.thrown && out) sim::fail("exception", "unexpected exception");
    std::vector<Ev> got = c.ev;
    if(chain.exact()) {             // one event per run: nothing to join
      got = no_empty(got);
    } else got = joined(got, false);
    bool complete = !c.thrown && (real || !synth.stopped);
    if(complete) sim::expect_eq("events", render_all(want), render_all(got), desc + " document " + std::to_string(d));
    else {
      upset = true;
      if(!got.empty() && got.back().k == "ED") got.pop_back();
      for(size_t i = 0; i != got.size(); ++i) {
        if(i < want.size() && render(got[i]) == render(want[i])) continue;
        if(i + 1 >= got.size() && i < want.size() && got[i].k == want[i].k && is_text(got[i]) && want[i].a[0].compare(0, got[i].a[0].size(), got[i].a[0]) == 0) continue;
        sim::fail("events", desc + " abandoned document " + std::to_string(d) + ": event " + std::to_string(i) + " is " + sim::quote(render(got[i]), 200) + ", expected " + (i < want.size() ? sim::quote(render(want[i]), 200) : S("nothing")));
      }
    }
    if(real || synth.locate) { if(c.located != sys) sim::fail("locator", "the locator did not pass through"); }
    if(last) {
      // the same document through a chain that has seen nothing
      Synth<st> s2; s2.locate = synth.locate; s2.events = &in; s2.want_sys = sys;
      typename C::R* e2 = nullptr; if(real) { sim::Sut s; e2 = Readers<st>::make(EXPAT); } Kill k2{ e2 };
      C fresh(kinds, real ? e2 : &s2, indent, link_late);
      go(fresh);
      for(size_t i = 0; i != chain.outs.size(); ++i)
        sim::expect_eq("output", to_s(fresh.outs[i]->str()), to_s(chain.outs[i]->str().substr(marks[i])), desc + ": what filter " + std::to_string(i) + " writes for the same document differs from a new chain");
      sim::nontrivial();
    }
  }
  if(upset) sim::probe("abandoned-document-before");
  sim::sample(desc + (real ? " over Expat" : "") + ", " + std::to_string(docs) + " documents before");
}

void p06() { if(coin()) run_filters<std::wstring>(); else run_filters<std::string>(); }
sim::Reg r06("P06", p06, nullptr, 400000000ull);
}
