// P15: Taggle over any bytes, any delivery, any history.
#include "../sim/sax.hpp"
#include <Taggle/Taggle.hpp>
#include <memory>
using namespace simsax;
using namespace sim;
namespace {
typedef std::string str;
typedef Arabica::SAX::Taggle<str> T;
typedef Arabica::SAX::InputSource<str> Source;

// a stream buffer without a buffer: nothing can be put back into it
struct Bare : std::streambuf {
  const S& d; size_t at = 0; Bare(const S& s) : d(s) {}
  int underflow() override { return at < d.size() ? (unsigned char)d[at] : EOF; }
  int uflow() override { return at < d.size() ? (unsigned char)d[at++] : EOF; }
};

S word(const std::vector<S>& v) { return pick(v); }
S tagname() {
  static const std::vector<S> names = {"p", "b", "i", "a", "div", "table", "tr", "td", "ul", "li", "html", "head", "body", "title", "script", "style", "br", "img", "form", "input", "select", "option", "textarea", "font",
    "meta", "link", "frameset", "frame", "noscript", "h1", "dl", "dd", "pre", "foo", "Bar", "x:y", "xml:z", "svg:rect", "P", "TABLE", "em", "q", "\xc3\xa9l", "1a", "a:b:c", ":", "<root>", "<pcdata>", "object", "map", "area", "iframe", "tbody", "colgroup", "col", "base", "isindex", "span"};
  return names[choose(names.size())];
}
S text() {
  switch(choose(9)) {
    case 0: case 1: { S s; for(int i = range(1, 6); i > 0; --i) s += (char)('a' + choose(26)); return s; }
    case 2: return word({" ", "\n", "\r\n", "\r", "\t", "\r\r\n", "  "});
    case 3: return word({"&amp;", "&lt", "&#65;", "&#x41;", "&#;", "&bogus;", "&nbsp;", "&#xD800;", "&#99999999999;", "&", "&#x", "&eacute", "&gt;&lt;", "&#13;", "&#128;", "&#x1F600;", "&copy;", "&&amp;", "&#-5;", "&#0;"});
    case 4: { int n = range(150, 420); return S(n, choose(4) ? 'x' : ' ') ; }
    case 5: { S s; for(int i = range(1, 5); i > 0; --i) s += (char)choose(256); return s; }
    case 6: return word({"\xc3\xa9", "\xff\xfe", "\xef\xbb\xbf", S(1, '\0'), "\x1b", "\xe2\x82"});
    case 7: return word({"]]>", "--", ">", "<", "<<", "< ", "</", "<>", "</>", "<!", "<?", "'", "\"", "=", "/"});
    default: return "w ";
  }
}
S attr() {
  S n = word({"id", "name", "class", "href", "x:a", "xmlns", "xmlns:x", "xml:lang", "SRC", "1", "", "a:b:c", "checked", "\xc3\xa9", "y:a", "x:b"});
  switch(choose(7)) {
    case 0: return " " + n; case 1: return " " + n + "=v"; case 2: return " " + n + "='a " + text() + "'"; case 3: return " " + n + "=\"&amp;" + text() + "\"";
    case 4: return " " + n + " = \"q\""; case 5: return "\n" + n + "=/x"; default: return " " + n + "=\"http://" + text();
  }
}
S token() {
  switch(choose(16)) {
    case 0: case 1: case 2: case 3: { S s = "<" + tagname(); for(int i = small(3); i > 0; --i) s += attr(); return s + word({">", ">", ">", ">", "/>", " />", "", " "}); }
    case 4: case 5: case 6: return "</" + tagname() + word({">", ">", ">", " >", "", " x>"});
    case 7: return "<!--" + text() + word({"-->", "-->", "--->", "--", "->", ""});
    case 8: return "<!DOCTYPE " + word({"html", "HTML", "foo", "", "p"}) + word({"", " PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://x/y.dtd\"", " SYSTEM 'a.dtd'", " PUBLIC 'x'", " SYSTEM", " PUBLIC \"<>&{}\" z", " [ <!ELEMENT a ANY> ]", " SYSTEM \"a b"}) + word({">", ">", ">", ""});
    case 9: return "<?" + word({"php", "xml version='1.0'", "", "a:b c", "x", "xml-stylesheet href='a'"}) + text() + word({"?>", ">", ""});
    case 10: return "<![CDATA[" + text() + word({"]]>", "]>", "", "]]]>"});
    case 11: return "<script>" + text() + "</" + word({"script>", "scrip", "b>", "SCRIPT>", "script "}) + text();
    default: return text();
  }
}
S document() {
  S d; int n = small(30);
  if(chance(1, 60)) {                 // many elements inside each other
    probe("deep"); bool very = chance(1, 5); S one = very ? S("<b>") : word({"<b>", "<div>", "<font>", "<foo>", "<table><tr><td>", "<span>"});
    for(int k = very ? range(20000, 40000) : range(200, 1500); k > 0; --k) d += one;
    return d;
  }
  for(int i = 0; i < n; ++i) d += token();
  if(chance(1, 6) && !d.empty()) { d.resize(choose(d.size())); fault("input cut off"); }
  if(chance(1, 8)) for(int i = range(1, 4); i > 0 && !d.empty(); --i) { d[choose(d.size())] = (char)choose(256); fault("bytes damaged"); }
  return d;
}
struct Features { bool f[9]; };
Features features() { Features f; for(int i = 0; i < 9; ++i) f.f[i] = chance(1, 8); return f; }
void configure(T& t, const Features& f) {
  Sut s;
  t.setFeature(T::namespacesFeature, !f.f[0]); t.setFeature(T::ignoreBogonsFeature, f.f[1]); t.setFeature(T::bogonsEmptyFeature, f.f[2]); t.setFeature(T::rootBogonsFeature, !f.f[3]);
  t.setFeature(T::defaultAttributesFeature, !f.f[4]); t.setFeature(T::translateColonsFeature, f.f[5]); t.setFeature(T::restartElementsFeature, !f.f[6]); t.setFeature(T::ignorableWhitespaceFeature, f.f[7]); t.setFeature(T::CDATAElementsFeature, !f.f[8]);
}
struct Rec : Recorder<str> {
  S where;
  Rec() { on_call = [this](const char* w) { if(locator && (!strcmp(w, "startElement") || !strcmp(w, "endElement") || !strcmp(w, "comment"))) { where += std::to_string(locator->getLineNumber()) + "," + std::to_string(locator->getColumnNumber()) + " "; } }; }
  void setDocumentLocator(const LocatorT& l) override { Shield sh; Recorder<str>::setDocumentLocator(l); }
};
void attach(T& t, Rec& r) { Sut s; t.setContentHandler(r); t.setLexicalHandler(r); t.setErrorHandler(r); t.setEntityResolver(r); t.setDTDHandler(r); }

// one document, elements and mappings nested, everything closed
void balanced(const Events& ev) {
  struct F { S name; std::vector<S> maps; };
  std::vector<F> open; std::vector<S> pending, closing, doc; int roots = 0; bool cdata = false;
  auto bad = [&](size_t i, const char* w) { fail("not-balanced", S(w) + " at event " + std::to_string(i) + ": " + quote(i < ev.size() ? ev[i] : "(end)", 200) + "\n" + quote(join(ev), 1500)); };
  if(ev.empty() || ev[0] != "SD") bad(0, "no start of document");
  if(ev.back() != "ED") bad(ev.size() - 1, "no end of document");
  bool started = false;
  for(size_t i = 1; i + 1 < ev.size(); ++i) {
    const S& e = ev[i]; S k = e.substr(0, 3);
    if(!closing.empty() && k != "PM-") bad(i, "a mapping of the closed element is still open");
    if(e == "SD" || e == "ED") bad(i, "second start or end of document");
    else if(k == "PM+") { S p = e.substr(4, e.find('=') - 4); if(!started && doc.empty()) doc.push_back(p); else pending.push_back(p); }
    else if(k == "SE ") { size_t a = e.find(" ", e.find('}')); S name = e.substr(3, e.find(" [") == S::npos ? S::npos : e.find(" [") - 3); (void)a; if(open.empty() && roots++) bad(i, "second root element"); F f; f.name = name; f.maps.swap(pending); open.push_back(f); started = true; }
    else if(k == "EE ") { if(open.empty()) bad(i, "end of an element that was not started"); if(open.back().name != e.substr(3)) bad(i, "end of another element than the innermost one"); closing = open.back().maps; open.pop_back(); }
    else if(k == "PM-") {
      S p = e.substr(4);
      if(!closing.empty()) { auto f = std::find(closing.begin(), closing.end(), p); if(f == closing.end()) bad(i, "end of a mapping that is not the closed element's"); closing.erase(f); }
      else { if(!open.empty() || doc.empty() || doc.back() != p) bad(i, "end of a mapping that was not started"); doc.pop_back(); if(i + 2 != ev.size()) bad(i, "events after the document's mapping was closed"); }
    }
    else {
      if(!pending.empty()) bad(i, "a mapping was started and no element followed");
      if(e == "CD+") { if(cdata) bad(i, "nested CDATA"); cdata = true; } else if(e == "CD-") { if(!cdata) bad(i, "CDATA not started"); cdata = false; }
      else if(e.compare(0, 2, "T ") == 0 && open.empty() && e.find_first_not_of(" \t\n", 2) != S::npos) bad(i, "text outside the root element");
    }
  }
  if(!open.empty() || !doc.empty() || !pending.empty() || !closing.empty() || cdata) bad(ev.size(), "something is still open at the end of the document");
  if(roots != 1) bad(ev.size(), "no root element");
}
struct Result { Events ev; S where; };
Result run(T& t, Rec& h, const S& d, int how, const Split& sp, IoFail f, size_t at) {
  h.reset(); h.where.clear(); h.locator = nullptr;
  std::unique_ptr<std::istream> in; std::unique_ptr<Bare> bare;
  if(how == 1) { bare.reset(new Bare(d)); in.reset(new std::istream(bare.get())); }
  else in.reset(new InStream(d, sp, f, at));
  { Source src(*in); src.setSystemId("http://base/doc"); Sut s; t.parse(src); }
  Result r; r.where = h.where; h.flush(); r.ev = h.ev; sim::result("locations", r.where); return r;
}
void p15() {
  heap_choose_policy();
  Features ft = features(); S d = document();
  note("input: %s", quote(d, 1500).c_str());
  sample(quote(d, 300));
  uint64_t sh = hash_str(d); nontrivial();
  // the reference: a new parser, everything at once
  Result want; std::unique_ptr<T> t; Rec h;
  { Rec ref; std::unique_ptr<T> t1; { Sut s; t1.reset(new T); } configure(*t1, ft); attach(*t1, ref); want = run(*t1, ref, d, 0, Split(), IO_NONE, 0); { Sut s; t1.reset(); } }
  balanced(want.ev);
  { Sut s; t.reset(new T); } configure(*t, ft); attach(*t, h);
  // a history of earlier parses
  int n = chance(1, 2) ? range(1, 3) : 0;
  for(int i = 0; i < n; ++i) {
    S e = choose(4) ? document() : d; int k = choose(6);
    note("earlier: kind %d: %s", k, quote(e, 500).c_str());
    sh = sh * 31 + k + hash_str(e);
    h.reset(); h.boom_id = i;
    if(k == 3) {                      // nothing to read
      Source src; src.setSystemId("/nowhere/at/all"); { Sut s; t->parse(src); }
      if(!h.fatals || !h.ev.empty()) fail("silent-failure", "an input that cannot be opened gave no error, or events"); continue;
    }
    Split sp = choose_split(e.size());
    if(k == 4 || k == 5) {            // the client gives up
      h.throw_at = choose(4) ? choose(40) >> choose(4) : choose(40000); h.throw_kind = choose(3);
      std::unique_ptr<InStream> in(new InStream(e, sp)); bool thrown = false;
      try { Source src(*in); Sut s; t->parse(src); } catch(Boom&) { thrown = true; } catch(std::exception&) { thrown = true; }
      if(thrown != h.thrown) fail("exception", "the client's exception did not arrive, or another did"); if(thrown) probe("abandoned");
      h.reset(); continue;
    }
    IoFail f = k == 2 ? (IoFail)(1 + choose(2)) : IO_NONE; size_t at = f ? choose(e.size() + 1) : 0;
    Result r = run(*t, h, e, 0, sp, f, at); balanced(r.ev);
  }
  int how = chance(1, 8); Split sp = choose_split(d.size()); for(auto x : sp.sizes) sh = sh * 31 + x;
  Result got = run(*t, h, d, how, sp, IO_NONE, 0);
  expect_eq("events", join(want.ev), join(got.ev), how ? "unbuffered delivery" : n ? "after other parses" : "split delivery");
  if(want.where != got.where) fail("locations", "locations reported differ: " + quote(want.where, 300) + " and " + quote(got.where, 300));
  { Sut s; t.reset(); }
  log("%zu events", got.ev.size()); shape(sh * 2 + how);
}
sim::Reg r15("P15", p15, nullptr, 3000000000);
}
