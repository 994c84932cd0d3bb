// P05: external entities, resolved by the client, through faulty streams.
#include "../sim/sax.hpp"
#include <SAX/helpers/InputSourceResolver.hpp>
#include <sstream>
using namespace simsax;
using sim::Split; using sim::IoFail;

namespace {
typedef std::string str;
typedef Readers<str>::R Reader;
typedef Arabica::SAX::InputSource<str> Source;

int streams_open = 0;
struct EntStream : sim::InStream {
  EntStream(const S& d, const Split& s, IoFail f, size_t at) : sim::InStream(d, s, f, at) { ++streams_open; }
  ~EntStream() { --streams_open; }
};

struct Res {                       // one external resource
  S name, pub, sys, text, bytes; int encoding = 0; std::vector<NodeP> nodes;
  size_t body = 0, end = 0;        // byte range in which a cut makes it malformed
  Split split; IoFail f = sim::IO_NONE; size_t at = 0; int pre = 0; bool mask = false, throws = false, declines = false;
  int resolved = 0; bool dtd = false;
};
std::map<S, Res*> registry;        // sim: scheme

std::istream* open_res(Res& r) {
  EntStream* e = new EntStream(r.bytes, r.split, r.f, r.at);
  if(r.pre == 1) e->setstate(std::ios::badbit);
  if(r.pre == 2) e->setstate(std::ios::failbit);
  if(r.mask) { try { e->exceptions(std::ios::badbit); } catch(...) { } }
  return e;
}
std::istream* scheme_resolver(const std::string& url) {
  sim::Shield sh;
  auto f = registry.find(url);
  if(f == registry.end()) sim::fail("wrong-id", "the scheme resolver was asked for " + url);
  Res& r = *f->second; ++r.resolved;
  if(r.declines) { sim::fault("source-unresolvable"); return 0; }
  return open_res(r);
}

void entity_bytes(Res& r, Doc& d, bool decl) {
  static const char* encs[] = { "", "UTF-8", "ISO-8859-1", "UTF-16", "UTF-16", "UTF-8" };
  if(r.encoding >= 3 && r.text.size() < 4) r.encoding = 0;   // Xerces does not recognise a byte order mark in so short an entity
  S head;
  if(decl || r.encoding == 2) { head = "<?xml"; if(chance(1, 2)) head += " version=\"1.0\""; head += S(" encoding=\"") + encs[r.encoding ? r.encoding : 1] + "\"?>"; }
  r.body = encode(head, r.encoding).size();
  r.bytes = encode(head + r.text, r.encoding);
  r.end = r.bytes.size();
}

void run_p05() {
  int backend = choose(5) < 3 ? EXPAT : XERCES;
  Set set = choose_set(backend);
  sim::heap_choose_policy();
  registry.clear(); streams_open = 0;
  Opt o; o.backend = backend; o.budget = 20; o.encodings = false; if(backend == XERCES) o.nonbmp = false;
  bool scheme = backend == EXPAT && chance(1, 4);
  bool off = backend == EXPAT && chance(1, 10);
  int fault = coin() ? 1 + (int)choose(9) : 0;
  if(off) fault = 0;
  bool ext_subset = !off && chance(1, 3);
  int n = 1 + (int)choose(3);
  std::vector<Res> res(n);
  Gen g(o);
  // entities, the later ones first, so that references only point onwards
  Doc d;
  std::vector<S> later;
  for(int i = n; i-- > 0;) {
    Res& r = res[i];
    r.name = "x" + std::to_string(i);
    r.sys = (scheme ? S("sim://host/") : S("http://sim.test/")) + r.name + ".ent";
    if(chance(1, 3)) r.pub = "-//Sim//" + r.name;
    r.encoding = (int)choose(6);
    Opt oo = o; oo.latin1_safe = r.encoding == 2; oo.budget = 12; oo.max_depth = 3;
    Gen ge(oo); ge.ents = later;
    ge.content(r.nodes, 1);
    if(coin()) { NodeP w = std::make_shared<Node>(); w->kind = Node::ELEM; w->local = "w"; w->kids.swap(r.nodes); r.nodes.push_back(w); }
    later.push_back(r.name);
  }
  g.ents = later;
  // the document
  {
    Gen gd(o); gd.ents = later;
    d.style = choose(1u << 16); d.opt = o;
    d.root = gd.element(0);
    NodeP e = std::make_shared<Node>(); e->kind = Node::ENTREF; e->text = later[choose((uint32_t)later.size())];
    d.root->kids.insert(d.root->kids.begin() + choose((uint32_t)d.root->kids.size() + 1), e);
    d.doctype = true; d.subset = true; d.dtname = d.root->qname();
  }
  int victim = (int)choose((uint32_t)n);
  // make sure the victim is reached: a reference at top level
  { NodeP e = std::make_shared<Node>(); e->kind = Node::ENTREF; e->text = res[victim].name; d.root->kids.insert(d.root->kids.begin() + choose((uint32_t)d.root->kids.size() + 1), e); }
  if(fault) { Res& r = res[victim]; { NodeP w = std::make_shared<Node>(); w->kind = Node::ELEM; w->local = "w"; w->kids.swap(r.nodes); r.nodes.push_back(w); } }
  std::vector<Decl> ext;
  for(auto& r : res) {
    Decl x; x.kind = Decl::XENTITY; x.name = r.name; x.a = r.pub; x.b = r.sys;
    if(ext_subset && coin()) ext.push_back(x); else d.decls.push_back(x);
    d.entities[r.name] = r.nodes;
  }
  Res dtd;
  if(ext_subset) {
    dtd.dtd = true; dtd.name = "(dtd)"; dtd.sys = scheme ? "sim://host/doc.dtd" : "http://sim.test/doc.dtd"; if(coin()) dtd.pub = "-//Sim//DTD"; dtd.encoding = (int)choose(6);
    int k = (int)choose(4);
    for(int i = 0; i != k; ++i) {
      Decl x; S nm = "d" + std::to_string(i);
      switch(choose(4)) {
        case 0: x.kind = Decl::ELEMENT; x.name = nm; x.a = "(#PCDATA)"; break;
        case 1: x.kind = Decl::NOTATION; x.name = nm; x.b = "viewer"; break;
        case 2: x.kind = Decl::COMMENT; x.a = " in the subset "; break;
        case 3: x.kind = Decl::ATTLIST; x.name = nm; x.a = "at"; x.b = "CDATA"; x.c = "#IMPLIED"; break;
      }
      ext.push_back(x);
    }
    d.dtsys = dtd.sys; d.dtpub = dtd.pub;
    Doc tmp = d; Ser s(tmp); for(auto& x : ext) s.decl(x);
    dtd.text = s.out;
    entity_bytes(dtd, d, coin());
    dtd.split = sim::choose_split(dtd.bytes.size());
    registry[dtd.sys] = &dtd;
  }
  for(auto& r : res) {
    Doc tmp = d; Ser s(tmp);
    for(auto& k : r.nodes) s.emit(k, false);
    r.text = s.out;
    entity_bytes(r, d, coin());
    r.split = sim::choose_split(r.bytes.size());
    registry[r.sys] = &r;
  }
  bool dtfirst = serialise(d);
  S bytes = encode(d.text, d.encoding);
  Split sp = sim::choose_split(bytes.size());
  // what is expected
  Doc model = d;
  for(auto& x : ext) model.decls.push_back(x);
  if(off) { for(auto& r : res) { NodeP k = std::make_shared<Node>(); k->kind = Node::PI; k->target = "\1SKIP"; k->text = r.name; model.entities[r.name] = { k }; } }
  Exp e(model, set); e.run(dtfirst);
  Events want = e.ev;
  for(auto& x : want) if(x.compare(0, 7, "P \1SKIP") == 0) x = "SKIP" + x.substr(7);
  if(backend == XERCES) want = without_dtd(want);

  sim::log("backend %s entities %d fault %d scheme %d off %d subset %d", backend_name(backend), n, fault, scheme, off, ext_subset);
  sim::note("doc: %s", sim::quote(bytes, 1500).c_str());
  for(auto& r : res) sim::note("%s = %s", r.sys.c_str(), sim::quote(r.bytes, 1000).c_str());
  if(ext_subset) sim::note("%s = %s", dtd.sys.c_str(), sim::quote(dtd.bytes, 600).c_str());
  sim::shape(sim::hash_str(bytes)); for(auto& r : res) { sim::shape(sim::hash_str(r.bytes)); for(auto x : r.split.sizes) sim::shape(x); }
  sim::shape(fault); sim::shape(backend * 4 + set.namespaces * 2 + set.prefixes);
  sim::sample(S(backend_name(backend)) + " " + std::to_string(n) + " entities, fault " + std::to_string(fault) + ": " + sim::quote(bytes, 200));

  // the fault
  bool must_fail = false, boom = false;
  Res intact; Res& v = res[victim]; intact = v; S what;
  switch(fault) {
    case 1: case 2: v.f = sim::IO_EOF; v.at = v.body + 1 + choose((uint32_t)std::max<size_t>(1, v.end - v.body - 1)); v.at = std::max(v.at, v.body + 6); if(v.encoding == 3 || v.encoding == 4) v.at &= ~size_t(1); must_fail = v.at < v.end; what = "truncated at " + std::to_string(v.at); break;
    case 3: { static const std::vector<S> bad = { "</wrong>", "< ", "&nope;", "<1/>", "\x01", "]]>" };
              S t = v.text; S ins = bad[choose((uint32_t)bad.size())]; if(ext_subset && ins == "&nope;") ins = "< "; size_t p = t.find('>'); if(p == S::npos || t[p - 1] == '/') { v.text = "<" ; } else { v.text = t.substr(0, p + 1) + ins + t.substr(p + 1); }
              S head = v.bytes.substr(0, v.body); v.bytes = head + (v.encoding == 3 || v.encoding == 4 ? encode(v.text, v.encoding).substr(head.empty() ? 0 : 2) : v.encoding == 5 && !head.empty() ? encode(v.text, 5).substr(3) : encode(v.text, v.encoding));
              must_fail = true; what = "inserted " + sim::quote(ins); sim::fault("malformed"); break; }
    case 4: case 5: v.f = sim::IO_THROW; v.at = choose((uint32_t)v.bytes.size() + 1); v.mask = chance(1, 3); must_fail = v.at < v.end; what = "stream fails at " + std::to_string(v.at) + (v.mask ? " with exceptions" : ""); break;
    case 6: v.pre = 1 + (int)choose(2); must_fail = true; what = v.pre == 1 ? "stream already bad" : "stream already failed"; sim::fault("stream-bad-at-start"); break;
    case 7: v.throws = !scheme; v.declines = scheme; must_fail = true; what = scheme ? "scheme resolver finds nothing" : "resolver throws"; break;
    case 8: { S t = v.text; S head = v.bytes.substr(0, v.body); size_t p = t.find('>'); S back = "&" + v.name + ";";
              if(p == S::npos || t[p - 1] == '/') v.text = "<w>" + back + "</w>"; else v.text = t.substr(0, p + 1) + back + t.substr(p + 1);
              v.bytes = head + (v.encoding == 3 || v.encoding == 4 ? encode(v.text, v.encoding).substr(head.empty() ? 0 : 2) : v.encoding == 5 && !head.empty() ? encode(v.text, 5).substr(3) : encode(v.text, v.encoding));
              must_fail = true; what = "refers to itself"; sim::fault("recursive-entity"); break; }
    case 9: v.declines = true; must_fail = true; what = "declined, and cannot be opened"; break;
  }
  if(fault == 9 && !scheme) { // what the parser then tries to open must lead nowhere
    S old = v.sys, neu = "/nonexistent/sim.ent"; v.sys = neu;
    for(size_t p; (p = bytes.find(old)) != S::npos;) bytes.replace(p, old.size(), neu);
    if(ext_subset) { for(size_t p; (p = dtd.text.find(old)) != S::npos;) dtd.text.replace(p, old.size(), neu); entity_bytes(dtd, d, false); }
    for(auto& x : want) for(size_t p; (p = x.find(old)) != S::npos;) x.replace(p, old.size(), neu);
  }

  Recorder<str> h; h.plain_local = !set.namespaces;
  Reader* rd; { sim::Sut s; rd = Readers<str>::make(backend); Readers<str>::configure(*rd, set); }
  struct Hold { Reader* r; ~Hold() { sim::Sut s; delete r; } } hold{ rd };
  { sim::Sut s; h.attach(*rd); Arabica::SAX::FeatureNames<str, Readers<str>::SA> f;
    if(backend == EXPAT) { rd->setFeature(f.external_general, !off); if(scheme) Arabica::SAX::InputSourceResolver::registerResolver("sim", scheme_resolver); } }
  bool unknown = false; S odd;
  h.resolve = [&](const S& pub, const S& sys, std::unique_ptr<std::istream>& out) -> bool {
    if(scheme) return false;
    Res* r = nullptr;
    for(auto& x : res) if(x.sys == sys) r = &x;
    if(ext_subset && dtd.sys == sys) r = &dtd;
    if(!r) sim::fail("wrong-id", "the resolver was asked for " + sys + ", which no declaration names");
    if(r->pub != pub) sim::fail("wrong-id", "the resolver was given public id " + pub + " for " + sys + ", declared " + r->pub);
    if(off) sim::fail("resolver-when-off", "the resolver was asked for " + sys + " although external entities are off");
    ++r->resolved;
    if(r->throws) { h.throw_at = 0; h.throw_mask = ~0u; h.boom_id = 7; h.thrown = true; sim::fault("throw-resolver"); throw Boom{ 7 }; }
    if(r->declines) { sim::fault("source-unresolvable"); return false; }
    out.reset(open_res(*r));
    return true;
  };
  auto parse = [&]() -> int {
    sim::InStream is(bytes, sp);
    Source src(is);
    try { sim::Sut s; rd->parse(src); return 0; }
    catch(Boom& b) { boom = true; if(b.id != 7) sim::fail("wrong-exception", "a different exception object arrived"); return 2; }
    catch(std::exception& ex) { sim::log("exception %s", ex.what()); return 1; }
  };
  sim::step_limit(150000000ull);
  int rounds = fault ? (coin() ? 2 : 1) : 1 + (int)choose(2);
  for(int round = 0; round != rounds; ++round) {
    h.reset();
    int out = parse();
    bool faulty = fault && round == 0;
    sim::log("round %d: outcome %d errors %d fatals %d", round, out, h.errors, h.fatals);
    Events got = h.events(), w = want;
    if(backend == XERCES) got = without_dtd(got);
    if(streams_open != 0 && backend == EXPAT) sim::fail("stream-leak", std::to_string(streams_open) + " entity streams still open after parse()");
    if(!faulty) {
      if(out) sim::fail("exception", S(backend_name(backend)) + ": parsing a well-formed document with intact entities threw");
      if(h.errors || h.fatals) sim::fail("error-on-good-input", S(backend_name(backend)) + (round ? ", after an earlier failure" : "") + ": errors for intact entities: " + h.first_error);
      sim::expect_eq("events", join(w), join(got), S(backend_name(backend)) + (round ? ", after an earlier parse" : "") + " events differ");
      if(!off) for(auto& r : res) if(r.name == v.name && !r.resolved) sim::fail("not-resolved", "the resolver was never asked for " + r.sys);
      if(!fault) sim::nontrivial();
    } else {
      sim::nontrivial();
      bool seen = out != 0 || h.fatals;
      if(must_fail && !seen) sim::fail("silent-failure", S(backend_name(backend)) + ": entity " + v.name + " " + what + ", yet no error was reported and parse() returned normally");
      if(v.throws && out != 2) sim::fail("exception-lost", "the resolver threw but parse() " + S(out ? "ended with another exception" : "returned normally"));
      S why;
      Events gc, wc; for(auto& x : without_dtd(got)) gc.push_back(x); for(auto& x : without_dtd(w)) wc.push_back(x);
      if(!must_fail && !seen) { }   // the cut happened to leave a well-formed entity
      else if((fault <= 3 || fault == 8) && backend == XERCES) { }   // Xerces itself notices broken nesting in an entity only further on
      else if(!is_prefix(gc, wc, &why)) sim::fail("bogus-events", S(backend_name(backend)) + ": entity " + v.name + " " + what + ": " + why);
      // heal
      S sys = v.sys; Split s = v.split; int rs = v.resolved; v = intact; v.sys = sys; v.split = s; v.resolved = rs;
      for(auto& x : h.first_error) (void)x;
    }
  }
  sim::no_step_limit();
  { sim::Sut s; delete hold.r; hold.r = nullptr; }
  if(streams_open != 0) sim::fail("stream-leak", std::to_string(streams_open) + " entity streams never closed");
}
sim::Reg r05("P05", run_p05, warm_parsers, 600000000ull);
}
