// P20: any allocation of the library's own fails, once or from there on, in the middle of any operation.
#include "oom.hpp"
#include "../sim/cases.hpp"
#include "../sim/dom.hpp"
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/io/Stream.hpp>
#include <SAX/filter/Writer.hpp>
#include <Taggle/Taggle.hpp>
#include <xercesc/framework/MemoryManager.hpp>
#include <xercesc/util/PlatformUtils.hpp>
#include <sstream>
using namespace simsax;

namespace oom {
typedef Arabica::SAX::XMLReaderInterface<str, Arabica::default_string_adaptor<str>> Reader;
struct Doc { S bytes; Set set; };
Doc draw(int backend) { Opt o = options(backend); o.budget = std::min(o.budget, 25); Doc d; d.set = choose_set(backend); d.bytes = make_case(backend, d.set, o).bytes; sim::note("document: %s", sim::quote(d.bytes, 4000).c_str()); return d; }
struct Quiet : Arabica::SAX::ErrorHandler<str> {
  typedef Arabica::SAX::ErrorHandler<str>::SAXParseExceptionT Ex; int errors = 0;
  void warning(const Ex&) override { } void error(const Ex&) override { ++errors; } void fatalError(const Ex&) override { ++errors; }
};

// What was delivered before the end is the beginning of what would have been delivered, the last text possibly cut; endDocument
// and (libxml2) the end of a CDATA section may still follow, and the order of prefix mappings is open.
bool begins(const S& got, const S& want) {
  auto plain = [](const S& s, bool cut) { Events v; for(size_t i = 0, j; i < s.size(); i = j + 1) { j = s.find('\n', i); if(j == S::npos) j = s.size(); S l = s.substr(i, j - i); if(l.compare(0, 2, "PM")) v.push_back(l); } while(cut && !v.empty() && (v.back() == "ED" || v.back() == "CD-")) v.pop_back(); return join(v); };
  S g = plain(got, true), w = plain(want, false); if(!g.empty()) g.pop_back();
  return !w.compare(0, g.size(), g);
}
struct Sax : Scenario {
  int b; Doc d; std::unique_ptr<Reader> r; Recorder<str> rec;
  Sax(int b, const Doc& d) : b(b), d(d) { }
  ~Sax() { sim::Sut s; r.reset(); }
  void start() override { { sim::Sut s; r.reset(Readers<str>::make(b)); Readers<str>::configure(*r, d.set); rec.attach(*r); } }
  void op() override { rec.reset(); std::unique_ptr<std::istringstream> in; { sim::Shield s; in.reset(new std::istringstream(d.bytes)); } struct Off { std::unique_ptr<std::istringstream>& i; ~Off() { sim::Shield s; i.reset(); } } off{ in }; Source src(*in); r->parse(src); }
  S result() override { Events e = rec.events(); return join(comparable(e, b)); }
  bool reported() override { return rec.errors + rec.fatals > 0; }
  bool prefix_ok(const S& g, const S& w) override { return begins(g, w); }
};
Maker sax() { int b = choose_backend(); Doc d = draw(b); sim::note("SAX parse, %s", backend_name(b)); return [=] { return std::unique_ptr<Scenario>(new Sax(b, d)); }; }

template<class P> struct Tree : Scenario {
  Doc d; std::unique_ptr<P> p; Quiet q; Arabica::DOM::Document<str> got; bool res = false;
  Tree(const Doc& d) : d(d) { }
  ~Tree() { sim::Sut s; p.reset(); got = Arabica::DOM::Document<str>(); }
  void start() override { sim::Sut s; p.reset(new P); p->setErrorHandler(q); }
  void op() override { q.errors = 0; res = false; got = Arabica::DOM::Document<str>(); std::unique_ptr<std::istringstream> in; { sim::Shield s; in.reset(new std::istringstream(d.bytes)); } struct Off { std::unique_ptr<std::istringstream>& i; ~Off() { sim::Shield s; i.reset(); } } off{ in }; Source src(*in); res = p->parse(src); got = p->getDocument(); }
  S result() override { return join(DomDump<str>::of(got)); }
  bool reported() override { return q.errors || !res; }
};
Maker tree() {
  int b = choose_backend(); Doc d = draw(b); sim::note("SAX2DOM parse, %s", backend_name(b));
  return [=] { std::unique_ptr<Scenario> s; if(b == EXPAT) s.reset(new Tree<Arabica::SAX2DOM::Parser<str, Arabica::SAX::expat_wrapper<str>>>(d)); else if(b == LIBXML2) s.reset(new Tree<Arabica::SAX2DOM::Parser<str, Arabica::SAX::libxml2_wrapper<str>>>(d)); else s.reset(new Tree<Arabica::SAX2DOM::Parser<str, Arabica::SAX::xerces_wrapper<str>>>(d)); return s; };
}

struct XmlWriter : Scenario {
  Doc d; std::unique_ptr<Reader> r; std::ostringstream out; std::unique_ptr<Arabica::SAX::Writer<str>> w; Recorder<str> rec;
  XmlWriter(const Doc& d) : d(d) { }
  ~XmlWriter() { sim::Sut s; w.reset(); r.reset(); }
  void start() override { sim::Sut s; r.reset(Readers<str>::make(EXPAT)); Readers<str>::configure(*r, d.set); w.reset(new Arabica::SAX::Writer<str>(out, *r)); rec.attach(*w); }
  void op() override { rec.reset(); std::unique_ptr<std::istringstream> in; { sim::Shield s; out.str(""); out.clear(); in.reset(new std::istringstream(d.bytes)); } struct Off { std::unique_ptr<std::istringstream>& i; ~Off() { sim::Shield s; i.reset(); } } off{ in }; Source src(*in); w->parse(src); }
  S result() override { return out.str(); }
  bool prefix_ok(const S& g, const S& w) override { return !w.compare(0, g.size(), g); }
  bool reported() override { return rec.errors + rec.fatals > 0 || !out; }
};
Maker writer() { Doc d = draw(EXPAT); sim::note("Writer"); return [=] { return std::unique_ptr<Scenario>(new XmlWriter(d)); }; }

struct Html : Scenario {
  S d; std::unique_ptr<Arabica::SAX::Taggle<str>> t; Recorder<str> rec;
  Html(const S& d) : d(d) { }
  ~Html() { sim::Sut s; t.reset(); }
  void start() override { sim::Sut s; t.reset(new Arabica::SAX::Taggle<str>); rec.attach(*t); }
  void op() override { rec.reset(); std::unique_ptr<std::istringstream> in; { sim::Shield s; in.reset(new std::istringstream(d)); } struct Off { std::unique_ptr<std::istringstream>& i; ~Off() { sim::Shield s; i.reset(); } } off{ in }; Source src(*in); t->parse(src); }
  S result() override { return join(rec.events()); }
  bool reported() override { return rec.errors + rec.fatals > 0; }
  bool prefix_ok(const S& g, const S& w) override { return begins(g, w); }
};
Maker taggle() {
  static const char* const bits[] = { "<p>", "<b>", "</b>", "<table><tr><td>", "</table>", "<a href='x&amp;y' name=q>", "</p>", "text &lt; &nbsp; &bogus; ", "<!-- c -->", "<?pi x?>", "<![CDATA[x]]>", "<script>a<b</script>", "<br>", "<li>", "<foo x:y='1'>", "<!DOCTYPE html>", "<i>", "</i>", "\n", "<html>", "<body class=k>" };
  S d; for(int i = sim::range(1, 14); i > 0; --i) d += bits[sim::choose(sizeof bits / sizeof *bits)];
  sim::note("Taggle: %s", sim::quote(d, 2000).c_str()); return [=] { return std::unique_ptr<Scenario>(new Html(d)); };
}

// ---- the driver ------------------------------------------------------------------------------------
struct Out { int how = 0; S what; bool fired = false; };
Out attempt(Scenario& s, int64_t k, bool sticky) {
  Out o;
  { sim::Sut su; sim::fail_alloc(k, sticky);
    try { s.op(); }
    catch(std::bad_alloc&) { o.how = 1; }
    catch(std::exception& e) { sim::Shield sh; sim::fail_alloc(-1); o.how = 2; o.what = e.what(); }
    o.fired = sim::alloc_failed(); sim::fail_alloc(-1); }
  return o;
}
void p20() {
  sim::heap_choose_policy();
  static Maker (*const all[])() = { sax, tree, writer, taggle, xpath, xpath, xslt, xslt };
  int w = sim::choose(sizeof all / sizeof *all + 2);
  if(w >= (int)(sizeof all / sizeof *all)) { mutate(); return; }
  Maker m = all[w]();
  std::unique_ptr<Scenario> s = m(); s->start();
  uint64_t c0 = sim::failable_count(); sim::watch_sites(true); Out o = attempt(*s, -1, false); sim::watch_sites(false); uint64_t n = sim::failable_count() - c0;
  if(o.how || s->reported()) { if(all[w] == xpath || all[w] == xslt) { sim::probe("invalid workload"); return; } sim::fail("harness", "the fault-free operation failed: " + o.what); }
  S want = s->result(); s.reset();
  sim::note("%llu allocations; result: %s", (unsigned long long)n, sim::quote(want, 3000).c_str());
  sim::nontrivial(); uint64_t sh = sim::hash_str(want) + w;
  if(n) for(int t = sim::range(1, n < 2000 ? 60 : n < 10000 ? 20 : 6); t > 0; --t) {
    int64_t k = sim::choose_site(); bool sticky = sim::coin(); int more = sim::chance(1, 2) ? 1 : sim::chance(1, 4) ? 2 : 0;
    sim::note("allocation %lld fails%s", (long long)k, sticky ? ", and all after it" : "");
    if(!s || sim::chance(1, 4)) { s.reset(); s = m(); s->start(); } else sim::note("   on the same objects");
    Out o = attempt(*s, k, sticky); sh = sh * 31 + k * 2 + sticky;
    sim::log("%d %d %d", o.how, (int)o.fired, (int)s->reported());
    S got = s->result();
    if(o.how == 0 && !s->reported() && got != want) sim::expect_eq("silent-loss", want, got, "an operation that lost an allocation and reported nothing");
    if(o.how == 2) sim::probe("ended by another exception"); else if(o.how == 1) sim::probe("ended by bad_alloc"); else if(s->reported()) sim::probe("error reported"); else sim::probe(o.fired ? "failure absorbed" : "not reached");
    s->check(got);
    if(!s->prefix_ok(got, want)) sim::expect_eq("delivered", want, got, "what was delivered before the failure is not the beginning of what would have been");
    while(more-- > 0) {
      Out p = attempt(*s, -1, false);
      if(p.how || s->reported()) sim::fail("reuse", "with memory again, the same objects fail: " + (p.how == 1 ? S("bad_alloc") : p.what));
      S again = s->result(); if(again != want) sim::expect_eq("reuse", want, again, "the same objects, with memory again");
    }
  }
  s.reset();
  sim::shape(sh); sim::sample(sim::quote(want, 200));
}
struct XercesMemory : xercesc::MemoryManager {
  MemoryManager* getExceptionMemoryManager() override { return this; }
  void* allocate(XMLSize_t n) override { sim::NoFail nf; return ::operator new(n); }
  void deallocate(void* p) override { ::operator delete(p); }
};
void warm() { static XercesMemory mm; static bool done; if(!done) { done = true; xercesc::XMLPlatformUtils::Initialize(xercesc::XMLUni::fgXercescDefaultLocale, 0, 0, &mm); } simsax::warm_parsers(); }
sim::Reg r20("P20", p20, warm, 6000000000ull);
}
