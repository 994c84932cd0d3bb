// SAX side of the simulation: recording handlers with injected exceptions, readers of every back end.
#ifndef VERIF_SIM_SAX_HPP
#define VERIF_SIM_SAX_HPP
#include "core.hpp"
#include "streams.hpp"
#include "xmlgen.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <SAX/wrappers/saxexpat.hpp>
#include <SAX/wrappers/saxlibxml2.hpp>
#include <SAX/wrappers/saxxerces.hpp>
#include <functional>
#include <convert/utf8ucs2codecvt.hpp>

namespace simsax {
using namespace xmlgen;

struct Boom { int id; };           // what injected handler exceptions throw
struct BoomStd : std::runtime_error { int id; explicit BoomStd(int i) : std::runtime_error("boom"), id(i) { } };
struct BoomSax : Arabica::SAX::SAXException { int id; explicit BoomSax(int i) : Arabica::SAX::SAXException("boom"), id(i) { } };

inline S to_s(const std::string& s) { return s; }
inline S to_s(const std::wstring& w) { S r; for(wchar_t c : w) r += utf8((uint32_t)c); return r; }
template<class T> struct From;
template<> struct From<std::string> { static std::string s(const S& x) { return x; } };
template<> struct From<std::wstring> { static std::wstring s(const S& x) { std::wstring r; for(uint32_t c : codepoints(x)) r += (wchar_t)c; return r; } };

struct Recorder_ {
  Events ev;
  S text;
  int errors = 0, fatals = 0, warnings = 0;
  S first_error;
  long calls = 0;                  // callbacks so far
  long throw_at = -1;              // callback index at which to throw
  unsigned throw_mask = ~0u;       // which kinds may throw
  int boom_id = 0, throw_kind = 0;
  bool thrown = false;
  bool drop_entities = true, drop_dtd = false;
  bool ended = false;
  std::function<void(const char*)> on_call;
  std::function<bool(const S&, const S&, std::unique_ptr<std::istream>&)> resolve;   // public, system -> stream

  enum { CONTENT = 1, LEXICAL = 2, DTD = 4, DECL = 8, RESOLVER = 16, ERROR = 32 };

  void enter(const char* what, unsigned kind) {
    if(thrown) sim::fail("callback-after-exception", S(what) + " was called after a handler had thrown");
    ++calls;
    if(on_call) on_call(what);
    if(throw_at >= 0 && (kind & throw_mask) && throw_at-- == 0) {
      thrown = true;
      sim::fault(kind == CONTENT ? "throw-content" : kind == LEXICAL ? "throw-lexical" : kind == DTD ? "throw-dtd" : kind == DECL ? "throw-decl" : kind == RESOLVER ? "throw-resolver" : "throw-error");
      flush();
      ev.push_back(S("(threw in ") + what + ")");
      if(throw_kind == 1) throw BoomStd(boom_id);
      if(throw_kind == 2) throw BoomSax(boom_id);
      throw Boom{ boom_id };
    }
  }
  void flush() { if(!text.empty()) { sim::result("text", text); ev.push_back("T " + text); text.clear(); } }
  void add(const S& e) { flush(); sim::result("event", e); ev.push_back(e); }
  // order inside a run of prefix mappings is not significant
  void sort_pm() {
    for(size_t i = 0; i < ev.size();) {
      size_t j = i;
      while(j < ev.size() && ev[j].compare(0, 3, ev[i].compare(0, 2, "PM") == 0 ? ev[i].substr(0, 3) : S("\1\1\1")) == 0) ++j;
      if(j > i) std::sort(ev.begin() + i, ev.begin() + j), i = j; else ++i;
    }
  }
  void reset() { ev.clear(); text.clear(); errors = fatals = warnings = 0; first_error.clear(); calls = 0; throw_at = -1; thrown = false; ended = false; }
};

template<class string_type>
class Recorder : public Arabica::SAX::DefaultHandler<string_type>, public Recorder_ {
  typedef Arabica::SAX::DefaultHandler<string_type> Base;
public:
  typedef typename Base::InputSourceT InputSourceT;
  typedef typename Base::LocatorT LocatorT;
  typedef typename Base::AttributesT AttributesT;
  typedef typename Base::SAXParseExceptionT SAXParseExceptionT;
  typedef string_type st;

  InputSourceT resolveEntity(const st& p, const st& s) override {
    sim::Shield sh;
    enter("resolveEntity", RESOLVER);
    InputSourceT is;
    std::unique_ptr<std::istream> str;
    if(resolve && resolve(to_s(p), to_s(s), str)) {
      if(str) { InputSourceT o(std::move(str)); o.setPublicId(p); o.setSystemId(s); return o; }
    }
    return is;
  }
  void notationDecl(const st& n, const st& p, const st& s) override { sim::Shield sh; enter("notationDecl", DTD); if(!drop_dtd) add("ND " + to_s(n) + " " + to_s(p) + " " + to_s(s)); }
  void unparsedEntityDecl(const st& n, const st& p, const st& s, const st& x) override { sim::Shield sh; enter("unparsedEntityDecl", DTD); if(!drop_dtd) add("UED " + to_s(n) + " " + to_s(p) + " " + to_s(s) + " " + to_s(x)); }
  void setDocumentLocator(const LocatorT& l) override { sim::Shield sh; locator = &l; }
  void startDocument() override { sim::Shield sh; enter("startDocument", CONTENT); add("SD"); }
  void endDocument() override { sim::Shield sh; enter("endDocument", CONTENT); add("ED"); ended = true; }
  void startPrefixMapping(const st& p, const st& u) override { sim::Shield sh; enter("startPrefixMapping", CONTENT); add("PM+ " + to_s(p) + "=" + to_s(u)); }
  void endPrefixMapping(const st& p) override { sim::Shield sh; enter("endPrefixMapping", CONTENT); add("PM- " + to_s(p)); }
  void startElement(const st& u, const st& l, const st& q, const AttributesT& a) override {
    sim::Shield sh;
    enter("startElement", CONTENT);
    std::vector<S> at;
    for(int i = 0; i != a.getLength(); ++i) {
      S q1 = to_s(a.getQName(i)), v = to_s(a.getValue(i));
      if(q1.compare(0, 5, "xmlns") == 0) at.push_back(q1 + "=" + v);
      else at.push_back("{" + to_s(a.getURI(i)) + "}" + (plain_local ? S() : to_s(a.getLocalName(i))) + " " + q1 + "=" + v);
    }
    std::sort(at.begin(), at.end());
    S e = "SE {" + to_s(u) + "}" + (plain_local ? S() : to_s(l)) + " " + to_s(q);
    for(auto& x : at) e += " [" + x + "]";
    add(e);
  }
  void endElement(const st& u, const st& l, const st& q) override { sim::Shield sh; enter("endElement", CONTENT); add("EE {" + to_s(u) + "}" + (plain_local ? S() : to_s(l)) + " " + to_s(q)); }
  void characters(const st& c) override { sim::Shield sh; enter("characters", CONTENT); text += to_s(c); }
  void ignorableWhitespace(const st& c) override { sim::Shield sh; enter("ignorableWhitespace", CONTENT); text += to_s(c); }
  void processingInstruction(const st& t, const st& d) override { sim::Shield sh; enter("processingInstruction", CONTENT); add("P " + to_s(t) + " " + to_s(d)); }
  void skippedEntity(const st& n) override { sim::Shield sh; enter("skippedEntity", CONTENT); add("SKIP " + to_s(n)); }
  void warning(const SAXParseExceptionT& e) override { sim::Shield sh; ++warnings; sim::note("   warning: %s", e.what()); enter("warning", ERROR); }
  void error(const SAXParseExceptionT& e) override { sim::Shield sh; ++errors; if(first_error.empty()) first_error = S("error: ") + e.what(); sim::note("   error: %s", e.what()); enter("error", ERROR); }
  void fatalError(const SAXParseExceptionT& e) override {
    sim::Shield sh; ++fatals; if(first_error.empty()) first_error = S("fatal: ") + e.what(); sim::note("   fatal: %s", e.what());
    if(thrown && tolerate_error_after_throw) return;
    enter("fatalError", ERROR);
  }
  void startDTD(const st& n, const st& p, const st& s) override { sim::Shield sh; enter("startDTD", LEXICAL); if(!drop_dtd) add("DTD+ " + to_s(n) + " " + to_s(p) + " " + to_s(s)); in_dtd = true; }
  void endDTD() override { sim::Shield sh; enter("endDTD", LEXICAL); if(!drop_dtd) add("DTD-"); in_dtd = false; }
  void startEntity(const st& n) override { sim::Shield sh; enter("startEntity", LEXICAL); if(!drop_entities) add("ENT+ " + to_s(n)); }
  void endEntity(const st& n) override { sim::Shield sh; enter("endEntity", LEXICAL); if(!drop_entities) add("ENT- " + to_s(n)); }
  void startCDATA() override { sim::Shield sh; enter("startCDATA", LEXICAL); add("CD+"); }
  void endCDATA() override { sim::Shield sh; enter("endCDATA", LEXICAL); add("CD-"); }
  void comment(const st& c) override { sim::Shield sh; enter("comment", LEXICAL); if(!(drop_dtd && in_dtd)) add("C " + to_s(c)); }
  void elementDecl(const st& n, const st& m) override { sim::Shield sh; enter("elementDecl", DECL); if(!drop_dtd) add("ELD " + to_s(n) + " " + to_s(m)); }
  void attributeDecl(const st& e, const st& a, const st& t, const st& d, const st& v) override { sim::Shield sh; enter("attributeDecl", DECL); if(!drop_dtd) add("ATD " + to_s(e) + " " + to_s(a) + " " + to_s(t) + " " + to_s(d) + " " + to_s(v)); }
  void internalEntityDecl(const st& n, const st& v) override { sim::Shield sh; enter("internalEntityDecl", DECL); if(!drop_dtd) add("IED " + to_s(n) + "=" + to_s(v)); }
  void externalEntityDecl(const st& n, const st& p, const st& s) override { sim::Shield sh; enter("externalEntityDecl", DECL); if(!drop_dtd) add("XED " + to_s(n) + " " + to_s(p) + " " + to_s(s)); }

  const LocatorT* locator = nullptr;
  bool in_dtd = false, plain_local = false, tolerate_error_after_throw = false;

  template<class R> void attach(R& r) {
    r.setContentHandler(*this); r.setDTDHandler(*this); r.setErrorHandler(*this); r.setEntityResolver(*this);
    r.setLexicalHandler(*this); r.setDeclHandler(*this);
  }
  Events events() { flush(); sort_pm(); return ev; }
};

template<class st> struct Readers {
  typedef Arabica::default_string_adaptor<st> SA;
  typedef Arabica::SAX::XMLReaderInterface<st, SA> R;
  static R* make(int backend) {
    switch(backend) {
      case EXPAT: return new Arabica::SAX::expat_wrapper<st>();
      case LIBXML2: return new Arabica::SAX::libxml2_wrapper<st>();
      default: return new Arabica::SAX::xerces_wrapper<st>();
    }
  }
  static void configure(R& r, const Set& s) {
    Arabica::SAX::FeatureNames<st, SA> f;
    if(s.backend == EXPAT || s.backend == LIBXML2) {
      r.setFeature(f.namespaces, true);
      r.setFeature(f.namespace_prefixes, s.prefixes);
      r.setFeature(f.namespaces, s.namespaces);
      if(s.backend == LIBXML2) r.setFeature(f.validation, false);
    } else {
      r.setFeature(f.namespace_prefixes, s.prefixes);
      r.setFeature(f.validation, false);
    }
  }
};

inline Set choose_set(int backend) {
  Set s; s.backend = backend;
  s.prefixes = sim::coin();
  s.namespaces = backend == XERCES ? true : !sim::chance(1, 4);
  if(!s.namespaces) s.prefixes = true;
  return s;
}

// drops declaration events (their text is back-end specific)
inline Events without_dtd(const Events& e) {
  Events r;
  for(auto& x : e) {
    S k = x.substr(0, x.find(' '));
    if(k == "DTD+" || k == "DTD-" || k == "ELD" || k == "ATD" || k == "IED" || k == "XED" || k == "ND" || k == "UED") continue;
    r.push_back(x);
  }
  return r;
}

// observed is what a prefix of the wanted events looks like: last text may be partial, last mappings incomplete
inline bool is_prefix(Events obs, const Events& want, S* why = nullptr) {
  while(!obs.empty() && (obs.back() == "ED" || obs.back().compare(0, 1, "(") == 0)) obs.pop_back();
  size_t n = obs.size();
  size_t run = n;                                       // start of a trailing run of mappings
  while(run > 0 && obs[run - 1].compare(0, 2, "PM") == 0) --run;
  for(size_t i = 0; i != run; ++i) {
    if(i < want.size() && obs[i] == want[i]) continue;
    if(i + 1 == n && i < want.size() && obs[i].compare(0, 2, "T ") == 0 && want[i].compare(0, obs[i].size(), obs[i]) == 0) continue;
    // Expat itself takes a token in the DTD cut by the end of the input for a whole one
    if(i + 1 == n && i < want.size() && (obs[i].compare(0, 4, "UED ") == 0 || obs[i].compare(0, 4, "ELD ") == 0) && want[i].compare(0, obs[i].size(), obs[i]) == 0) continue;
    if(why) *why = "event " + std::to_string(i) + " is " + sim::quote(obs[i], 200) + ", expected " + (i < want.size() ? sim::quote(want[i], 200) : S("nothing"));
    return false;
  }
  for(size_t i = run; i < n; ++i) {
    bool ok = false;
    for(size_t j = run; j < want.size() && want[j].compare(0, 2, "PM") == 0; ++j) ok = ok || want[j] == obs[i];
    if(!ok) { if(why) *why = "event " + std::to_string(i) + " is " + sim::quote(obs[i], 200) + ", not expected there"; return false; }
  }
  return true;
}

void warm_parsers();
} // namespace simsax
#endif
