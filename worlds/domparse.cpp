// P07: SAX2DOM over every back end, through histories of good, broken and aborted parses.
#include "../sim/cases.hpp"
#include "../sim/dom.hpp"
#include <DOM/SAX2DOM/SAX2DOM.hpp>
using namespace simsax;

namespace {
typedef Arabica::SAX2DOM::Parser<str, Arabica::SAX::expat_wrapper<str>> PE;
typedef Arabica::SAX2DOM::Parser<str, Arabica::SAX::libxml2_wrapper<str>> PL;
typedef Arabica::SAX2DOM::Parser<str, Arabica::SAX::xerces_wrapper<str>> PX;
typedef Arabica::DOM::Document<str> Document;

// what the tree has to show of the events of the document
Events tree_events(const Events& in, int backend) {
  Events r; bool dtd = false;
  for(auto& e : in) {
    S k = e.substr(0, e.find(' '));
    if(k == "DTD+") { dtd = true; r.push_back(e); continue; }
    if(k == "DTD-") { dtd = false; continue; }
    if(dtd || k == "SD" || k == "ED" || k == "PM+" || k == "PM-") continue;
    r.push_back(e);
  }
  if(backend != LIBXML2) return r;
  Events m;                                             // libxml2: adjacent CDATA sections come merged, the DTD is not reported
  r.erase(std::remove_if(r.begin(), r.end(), [](const S& e) { return e.compare(0, 5, "DTD+ ") == 0; }), r.end());
  for(size_t i = 0; i != r.size(); ++i) {
    if(r[i] == "CD-" && i + 1 < r.size() && r[i + 1] == "CD+") { ++i; continue; }
    if(!m.empty() && r[i].compare(0, 2, "T ") == 0 && m.back().compare(0, 2, "T ") == 0) m.back() += r[i].substr(2);
    else m.push_back(r[i]);
  }
  return m;
}

struct Client : Arabica::SAX::ErrorHandler<str>, Arabica::SAX::EntityResolver<str> {
  typedef Arabica::SAX::ErrorHandler<str>::SAXParseExceptionT Ex;
  int errors = 0, warnings = 0; int throw_at = -1; bool resolver_throws = false, thrown = false; S first;
  std::map<S, S> ents; Split sp; int resolved = 0;
  void hit(const Ex& e) { if(first.empty()) first = e.what(); ++errors; sim::log("error callback %d", errors); if(throw_at >= 0 && throw_at-- == 0) { thrown = true; sim::fault("throw-error"); throw Boom{ 3 }; } }
  void warning(const Ex& e) override { sim::Shield sh; ++warnings; }
  void error(const Ex& e) override { sim::Shield sh; hit(e); }
  void fatalError(const Ex& e) override { sim::Shield sh; hit(e); }
  Arabica::SAX::InputSource<str> resolveEntity(const str& p, const str& s) override {
    sim::Shield sh;
    ++resolved;
    auto f = ents.find(s);
    if(f == ents.end()) return Arabica::SAX::InputSource<str>();
    if(resolver_throws) { thrown = true; sim::fault("throw-resolver"); throw Boom{ 3 }; }
    Arabica::SAX::InputSource<str> is(std::unique_ptr<std::istream>(new sim::InStream(f->second, sp)));
    is.setSystemId(s); is.setPublicId(p);
    return is;
  }
};

struct Any {                        // one of the three parsers
  int b; PE* e = nullptr; PL* l = nullptr; PX* x = nullptr;
  explicit Any(int backend) : b(backend) { sim::Sut s; if(b == EXPAT) e = new PE; else if(b == LIBXML2) l = new PL; else x = new PX; }
  ~Any() { sim::Sut s; delete e; delete l; delete x; }
  bool res = false;
  void parse(Source& s) { res = b == EXPAT ? e->parse(s) : b == LIBXML2 ? l->parse(s) : x->parse(s); }
  Document doc() { sim::Sut s; return b == EXPAT ? e->getDocument() : b == LIBXML2 ? l->getDocument() : x->getDocument(); }
  void reset() { sim::Sut s; if(e) e->reset(); if(l) l->reset(); if(x) x->reset(); }
  void attach(Client& c) { sim::Sut s; if(e) { e->setErrorHandler(c); e->setEntityResolver(c); } if(l) { l->setErrorHandler(c); l->setEntityResolver(c); } if(x) { x->setErrorHandler(c); x->setEntityResolver(c); } }
  void feature(const S& n, bool v) { sim::Sut s; if(e) e->setFeature(n, v); if(l) l->setFeature(n, v); if(x) x->setFeature(n, v); }
};

Events dump(const Document& d) { sim::Sut s; return DomDump<str>::of(d); }

struct Kept { Document doc; Events want; S what; };

struct XCase : Case { std::map<S, S> files; S id; bool off = false; };

XCase make(int backend) {
  XCase c;
  c.set = Set{ backend, true, true };
  Opt o = options(backend); o.budget = 25;
  Gen g(o);
  c.doc = g.doc();
  if(backend == LIBXML2) {                              // nor are its comments and PIs told apart from the document's
    auto& ds = c.doc.decls;
    ds.erase(std::remove_if(ds.begin(), ds.end(), [](const Decl& x) { return x.kind == Decl::COMMENT || x.kind == Decl::PI; }), ds.end());
  }
  bool ext = backend != LIBXML2 && chance(1, 4) && !c.doc.doctype;
  if(ext) {                                             // external entities, one perhaps inside the other
    int n = 1 + (int)choose(2);
    c.doc.doctype = c.doc.subset = true; c.doc.dtname = c.doc.root->qname();
    std::vector<S> later;
    for(int i = n; i-- > 0;) {
      Opt oo = o; oo.encodings = false; oo.latin1_safe = true; oo.budget = 8; oo.max_depth = 2; oo.big = false;
      Gen ge(oo); ge.ents = later;
      std::vector<NodeP> kids;
      if(!chance(1, 4)) ge.content(kids, 1);
      Decl x; x.kind = Decl::XENTITY; x.name = "x" + std::to_string(i); x.b = "http://sim.test/" + x.name;
      c.doc.decls.push_back(x); c.doc.entities[x.name] = kids;
      later.push_back(x.name);
    }
    int refs = 1 + (int)choose(3);
    for(int k = 0; k != refs; ++k) {
      NodeP e = std::make_shared<xmlgen::Node>(); e->kind = xmlgen::Node::ENTREF; e->text = later[choose((uint32_t)later.size())];
      auto& kids = c.doc.root->kids; kids.insert(kids.begin() + choose((uint32_t)kids.size() + 1), e);
    }
  }
  bool df = false;
  if(c.doc.doctype && backend != LIBXML2) {             // an attribute with a default, an attribute of type ID
    df = chance(1, 4); bool id = chance(1, 4);
    if(df || id) { c.doc.root->local = "TheRoot"; c.doc.dtname = c.doc.root->qname(); }
    if(df) { Decl x; x.kind = Decl::ATTLIST; x.name = c.doc.root->qname(); x.a = "dz"; x.b = "CDATA"; x.d = "dflt"; c.doc.decls.push_back(x); }
    if(id) { Decl x; x.kind = Decl::ATTLIST; x.name = c.doc.root->qname(); x.a = "zid"; x.b = "ID"; x.c = "#IMPLIED"; c.doc.decls.push_back(x);
             Attr a; a.special = false; a.local = "zid"; a.value = c.id = "n" + std::to_string(choose(1000)); c.doc.root->attrs.push_back(a); }
  }
  maybe_align(c.doc, backend);
  c.dtfirst = serialise(c.doc);
  c.bytes = encode(c.doc.text, c.doc.encoding);
  Doc model = c.doc;
  if(df) { model.root = std::make_shared<xmlgen::Node>(*model.root); Attr a; a.special = false; a.local = "dz"; a.value = "dflt"; model.root->attrs.push_back(a); }
  c.off = ext && backend == EXPAT && chance(1, 4);      // external entities left alone
  if(c.off) for(auto& x : c.doc.decls) if(x.kind == Decl::XENTITY) { NodeP k = std::make_shared<xmlgen::Node>(); k->kind = xmlgen::Node::PI; k->target = "\1SKIP"; k->text = x.name; model.entities[x.name] = { k }; }
  Exp e(model, c.set); e.run(c.dtfirst); c.want = e.ev;
  if(c.off) for(auto& x : c.want) if(x.compare(0, 7, "P \1SKIP") == 0) x = "SKIP" + x.substr(7);
  if(ext && !c.off) for(auto& x : c.doc.decls) if(x.kind == Decl::XENTITY) {
    Doc tmp = c.doc; Ser s(tmp); s.cp = nullptr;
    for(auto& k : tmp.entities[x.name]) s.emit(k, false);
    c.files[x.b] = s.out;
  }
  return c;
}

// references to entities without content stand as entity reference nodes
Events without_empty_refs(const Events& e) {
  Events r;
  for(auto& x : e) {
    if(x.compare(0, 5, "SKIP ") == 0) continue;
    if(!r.empty() && x.compare(0, 2, "T ") == 0 && r.back().compare(0, 2, "T ") == 0) r.back() += x.substr(2);
    else r.push_back(x);
  }
  return r;
}

void check_doc(const XCase& c, const Document& doc, Kept& k) {
  Events want = tree_events(c.want, c.set.backend);
  k.doc = doc; k.want = want; k.what = backend_name(c.set.backend);
  sim::expect_eq("tree", join(want), join(c.off ? dump(doc) : without_empty_refs(dump(doc))), k.what + " tree differs");
  if(c.off) k.want = without_empty_refs(want);
  sim::Sut s;
  if(c.doc.doctype && c.set.backend != LIBXML2) {
    Arabica::DOM::DocumentType<str> dt = doc.getDoctype();
    if(dt == 0) sim::fail("doctype", "the document has no doctype");
    {
      std::map<S, bool> ents, nots;
      for(auto& x : c.doc.decls) {
        if(x.kind == Decl::NOTATION) {
          nots[x.name] = true;
          Arabica::DOM::Notation<str> n = (Arabica::DOM::Notation<str>)dt.getNotations().getNamedItem(x.name);
          if(n == 0) sim::fail("doctype", "notation " + x.name + " is missing from the doctype");
          if(n.getPublicId() != x.a || n.getSystemId() != x.b) sim::fail("doctype", "notation " + x.name + " has the wrong ids");
        }
        if(x.kind == Decl::ENTITY || x.kind == Decl::XENTITY || x.kind == Decl::UNPARSED) {
          ents[x.name] = true;
          Arabica::DOM::Entity<str> n = (Arabica::DOM::Entity<str>)dt.getEntities().getNamedItem(x.name);
          if(n == 0) sim::fail("doctype", "entity " + x.name + " is missing from the doctype");
          if(x.kind == Decl::UNPARSED && (n.getNotationName() != x.c || n.getPublicId() != x.a || n.getSystemId() != x.b)) sim::fail("doctype", "unparsed entity " + x.name + " has the wrong ids");
          if(x.kind == Decl::XENTITY && (n.getPublicId() != x.a || n.getSystemId() != x.b)) sim::fail("doctype", "entity " + x.name + " has the wrong ids");
        }
      }
      if(dt.getEntities().getLength() != ents.size()) sim::fail("doctype", "the doctype has " + std::to_string(dt.getEntities().getLength()) + " entities, declared " + std::to_string(ents.size()));
      if(dt.getNotations().getLength() != nots.size()) sim::fail("doctype", "the doctype has " + std::to_string(dt.getNotations().getLength()) + " notations, declared " + std::to_string(nots.size()));
    }
  } else if(!c.doc.doctype && doc.getDoctype() != 0) sim::fail("doctype", "the document has a doctype that the input does not");
  if(!c.id.empty()) {
    Arabica::DOM::Element<str> e = doc.getElementById(c.id);
    if(e == 0 || e != doc.getDocumentElement()) sim::fail("id", "getElementById does not find the element with the declared ID");
  }
}

void recheck(Kept& k, const char* when) {
  sim::expect_eq("earlier-document", join(k.want), join(without_empty_refs(dump(k.doc))), k.what + ": an earlier document changed " + when);
  sim::Sut s;
  Arabica::DOM::Element<str> r = k.doc.getDocumentElement();
  Arabica::DOM::Node<str> t = r.appendChild(k.doc.createTextNode("extra"));
  if(r.getLastChild() != t) sim::fail("earlier-document", "an earlier document cannot be modified");
  r.removeChild(t);
}

void p07() {
  int backend = choose_backend();
  sim::heap_choose_policy();
  Client cl;
  std::unique_ptr<Any> p(new Any(backend));
  bool handlers = true;
  p->attach(cl);
  bool repeat = chance(1, 5);
  int n = repeat ? 1 : 1 + (int)choose(4);
  std::vector<Kept> kept;
  bool upset = false;
  for(int i = 0; i < n; ++i) {
    bool last = i == n - 1;
    XCase c = make(backend);
    sim::log("document %d: backend %s encoding %d length %zu", i, backend_name(backend), c.doc.encoding, c.bytes.size());
    sim::note("doc: %s", sim::quote(c.bytes, 2000).c_str());
    for(auto& f : c.files) sim::note("%s = %s", f.first.c_str(), sim::quote(f.second).c_str());
    Split sp = sim::choose_split(c.bytes.size());
    cl.sp = sim::choose_split(50);
    uint32_t kind = last && !repeat ? 0 : choose(8);
    Damage d; d.bytes = c.bytes;
    if(kind >= 1 && kind < 5) d = choose_damage(c);
    bool ethrow = kind >= 1 && kind < 5 && chance(1, 3);
    bool rthrow = kind == 5;
    sim::shape(sim::hash_str(d.bytes)); sim::shape(d.at * 8 + d.f); sim::shape(kind); for(auto x : sp.sizes) sim::shape(x);
    if(i == 0) sim::sample(S(backend_name(backend)) + " history of " + std::to_string(n) + ": " + sim::quote(d.bytes, 200));
    int reps = repeat ? 4 : 1;
    size_t live[4];
    for(int r = 0; r != reps; ++r) {
      cl.errors = cl.warnings = 0; cl.first.clear(); cl.thrown = false; cl.throw_at = ethrow ? 0 : -1; cl.resolver_throws = rthrow; cl.ents = c.files;
      p->res = false;
      if(backend == EXPAT) p->feature(Arabica::SAX::FeatureNames<str>().external_general, !c.off);
      int out = 0;
      sim::step_limit(150000000ull);
      try {
        if(kind == 6) { Source src; src.setSystemId("/nonexistent/x.xml"); sim::fault("source-unresolvable"); sim::Sut s; p->parse(src); }
        else parse_bytes(*p, d.bytes, sp, d.f, d.at, d.pre, d.mask);
      }
      catch(Boom&) { out = 2; }
      catch(std::exception& e) { out = 1; sim::note("exception %s", e.what()); }
      sim::no_step_limit();
      Document doc = p->doc();
      bool ok = out == 0 && cl.errors == 0;
      sim::log("outcome %d returned %d errors %d document %d", out, (int)p->res, cl.errors, (int)(doc != 0));
      if(cl.thrown && out != 2) sim::fail("exception-lost", "the client's exception did not come out of parse()");
      bool broken = (kind >= 1 && kind < 5 && d.must_fail) || kind == 6 || cl.thrown;
      if(broken && ok && p->res) sim::fail("silent-failure", S(backend_name(backend)) + ": " + d.what + ": parse() reported success");
      if(!ok && (p->res || doc != 0)) sim::fail("failed-parse-has-document", S(backend_name(backend)) + ": an error was reported, yet parse() " + (p->res ? "returned true" : "left a document behind"));
      if(ok && p->res != (doc != 0)) sim::fail("result", "parse()'s result and getDocument() disagree");
      if(!broken && d.must_fail && (kind == 0 || kind == 7 || kind == 5)) {
        if(!ok || !p->res) sim::fail("error-on-good-input", S(backend_name(backend)) + ": a well-formed document was refused: " + cl.first);
        Kept k; check_doc(c, doc, k);
        if(!repeat) kept.push_back(k);
      } else { upset = true; if(ok && p->res) { } }
      doc = Document();
      if(kind == 7) { p->reset(); if(p->doc() != 0) sim::fail("reset", "a document is left after reset()"); }
      if(!repeat && kept.size() > 1 && coin()) recheck(kept[choose((uint32_t)kept.size())], "after a later parse");
      live[r] = sim::live_blocks();
    }
    if(reps == 4 && live[3] > live[2] && live[2] > live[1]) sim::fail("leak", S(backend_name(backend)) + ": repeating a parse keeps " + std::to_string(live[3] - live[2]) + " more blocks each time: " + sim::live_report());
  }
  if(upset || n > 1) sim::nontrivial();
  if(kept.size() == 1 && n == 1) sim::nontrivial();
  p.reset();
  for(auto& k : kept) recheck(k, "after the parser was destroyed");
  { sim::Sut s; kept.clear(); }
}
sim::Reg r07("P07", p07, warm_parsers, 600000000ull);
}
