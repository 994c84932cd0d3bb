#include "../sim/cases.hpp"
using namespace simsax;
namespace {
void p01() {
  int backend = choose_backend();
  Set set = choose_set(backend);
  Case c = make_case(backend, set, options(backend));
  sim::heap_choose_policy();
  sim::log("backend %s ns %d prefixes %d encoding %d length %zu", backend_name(backend), set.namespaces, set.prefixes, c.doc.encoding, c.bytes.size());
  sim::note("doc: %s", sim::quote(c.bytes, 3000).c_str());
  Split sp = sim::choose_split(c.bytes.size());
  sim::nontrivial();
  sim::shape(sim::hash_str(c.bytes)); for(auto x : sp.sizes) sim::shape(x);
  sim::shape(backend * 4 + set.namespaces * 2 + set.prefixes);
  sim::sample(S(backend_name(backend)) + " split[" + std::to_string(sp.sizes.size()) + "] " + sim::quote(c.bytes, 300));
  Recorder<str> h; h.plain_local = !set.namespaces;
  std::unique_ptr<Reader> r; { sim::Sut s; r.reset(Readers<str>::make(backend)); Readers<str>::configure(*r, set); h.attach(*r); }
  try { parse_bytes(*r, c.bytes, sp); }
  catch(std::exception& e) { sim::fail("exception", S("parsing a well-formed document threw ") + e.what()); }
  if(h.fatals || h.errors) sim::fail("error-on-good-input", "errors reported for a well-formed document: " + h.first_error);
  sim::expect_eq("events", join(comparable(c.want, backend)), join(comparable(h.events(), backend)), S(backend_name(backend)) + " events differ");
  { sim::Sut s; r.reset(); }
}

// ---------------------------------------------------------------- broken input
enum Outcome { RETURNED, EXC_STD, EXC_BOOM };
const char* outcome_name(int o) { static const char* n[] = { "returned", "std::exception", "handler exception" }; return n[o]; }

int parse_outcome(Reader& r, Recorder<str>& h, const Damage& d, const Split& sp, S* what = nullptr) {
  try { parse_bytes(r, d.bytes, sp, d.f, d.at, d.pre, d.mask); return RETURNED; }
  catch(Boom& b) { if(b.id != h.boom_id) sim::fail("wrong-exception", "a different exception object arrived"); return EXC_BOOM; }
  catch(BoomStd& b) { if(b.id != h.boom_id) sim::fail("wrong-exception", "a different exception object arrived"); return EXC_BOOM; }
  catch(BoomSax& b) { if(b.id != h.boom_id) sim::fail("wrong-exception", "a different exception object arrived"); return EXC_BOOM; }
  catch(std::exception& e) { if(what) *what = e.what(); return EXC_STD; }
}

// The events of a broken parse are the first events of the intact one.  libxml2 itself (SAX1 push interface)
// announces an element whose start tag turns out to be broken before it reports the error: that last element is
// not held against the wrapper.
bool prefix_of_intact(const Case& c, Recorder<str>& h, S* why) {
  Events obs = comparable(h.events(), c.set.backend), want = comparable(c.want, c.set.backend);
  if(is_prefix(obs, want, why)) return true;
  if(c.set.backend != LIBXML2) return false;
  while(!obs.empty() && (obs.back() == "ED" || obs.back().compare(0, 1, "(") == 0)) obs.pop_back();
  if(obs.size() > 1 && obs.back() == "CD-" && obs[obs.size() - 2].compare(0, 2, "T ") == 0) { obs.pop_back(); return is_prefix(obs, want, why); }   // the wrapper closes a cut CDATA section
  if(obs.empty() || (obs.back().compare(0, 3, "SE ") != 0 && obs.back().compare(0, 3, "PM+") != 0)) return false;
  if(obs.back().compare(0, 3, "SE ") == 0) obs.pop_back();
  while(!obs.empty() && obs.back().compare(0, 3, "PM+") == 0) obs.pop_back();
  return is_prefix(obs, want, why);
}

// judges a parse of damaged input
void check_damaged(const Case& c, const Damage& d, Recorder<str>& h, int out) {
  sim::log("damage: %s -> %s, %d errors %d fatal", d.what.c_str(), outcome_name(out), h.errors, h.fatals);
  bool seen = out != RETURNED || h.fatals || (c.set.backend == LIBXML2 && h.errors);
  if(d.must_fail && !seen) sim::fail("silent-failure", S(backend_name(c.set.backend)) + ": " + d.what + ", yet no error was reported and parse() returned normally");
  S why;
  if(!prefix_of_intact(c, h, &why)) sim::fail("bogus-events", S(backend_name(c.set.backend)) + ": " + d.what + ": " + why);
}

void describe(const Case& c) {
  sim::log("backend %s ns %d prefixes %d encoding %d length %zu", backend_name(c.set.backend), c.set.namespaces, c.set.prefixes, c.doc.encoding, c.bytes.size());
  sim::note("doc: %s", sim::quote(c.bytes, 2000).c_str());
}

Reader* new_reader(const Set& set, Recorder<str>& h) {
  h.plain_local = !set.namespaces;
  sim::Sut s; Reader* r = Readers<str>::make(set.backend); Readers<str>::configure(*r, set); h.attach(*r); return r;
}
struct Holder { Reader* r; ~Holder() { sim::Sut s; delete r; } };

void p02() {
  int backend = choose_backend();
  Case c = make_case(backend, choose_set(backend), options(backend));
  sim::heap_choose_policy();
  describe(c);
  Damage d = choose_damage(c);
  Split sp = sim::choose_split(d.bytes.size());
  sim::nontrivial();
  sim::shape(sim::hash_str(d.bytes)); sim::shape(d.f * 8 + d.pre * 2 + d.mask); sim::shape(d.at); sim::shape(backend * 4 + c.set.namespaces * 2 + c.set.prefixes); for(auto x : sp.sizes) sim::shape(x);
  sim::sample(S(backend_name(backend)) + " " + d.what + ": " + sim::quote(d.bytes, 300));
  Recorder<str> h;
  Holder r{ new_reader(c.set, h) };
  sim::step_limit(60000000ull + d.bytes.size() * 20000ull);
  int out = parse_outcome(*r.r, h, d, sp);
  sim::no_step_limit();
  check_damaged(c, d, h, out);
}

// ---------------------------------------------------------------- reuse
void p03() {
  int backend = choose_backend();
  Set set = choose_set(backend);
  sim::heap_choose_policy();
  Recorder<str> h;
  Holder r{ new_reader(set, h) };
  bool repeat = chance(1, 4);
  int n = repeat ? 1 : 1 + (int)choose(4);
  Opt o = options(backend); o.budget = 20;
  bool upset = false;
  for(int i = 0; i <= n; ++i) {
    bool last = i == n;
    if(i && chance(1, 4)) {
      Set s2 = choose_set(backend); set = s2;
      sim::log("settings ns %d prefixes %d", set.namespaces, set.prefixes);
      try { sim::Sut s; Readers<str>::configure(*r.r, set); } catch(std::exception& e) { sim::fail("settings-refused", S("features cannot be set between parses: ") + e.what()); }
      h.plain_local = !set.namespaces;
    }
    Case c = make_case(backend, set, o);
    describe(c);
    sim::shape(sim::hash_str(c.bytes));
    h.reset();
    sim::step_limit(100000000ull);
    uint32_t kind = last ? 0 : choose(8);
    Damage d; d.bytes = c.bytes;
    Split sp = sim::choose_split(c.bytes.size());
    int reps = repeat && !last ? 5 : 1;
    long at = -1; int tk = 0;
    if(kind >= 1 && kind < 4) d = choose_damage(c);
    else if(kind >= 4 && kind < 7) { at = (long)choose(3 + 2 * (uint32_t)c.want.size()); tk = (int)choose(3); }
    sim::shape(kind); sim::shape(at); sim::shape(d.at);
    size_t live[8] = { 0 };
    for(int k = 0; k != reps; ++k) {
      h.reset(); h.throw_at = at; h.throw_kind = tk; h.boom_id = i * 10 + k; h.tolerate_error_after_throw = true;
      if(kind == 7) {
        int res = 0;
        try { Source src; src.setSystemId("/nonexistent/" + std::to_string(i) + ".xml"); sim::Sut s; r.r->parse(src); }
        catch(std::exception&) { res = 1; }
        sim::log("unresolvable source: %s, %d errors %d fatal", res ? "exception" : "returned", h.errors, h.fatals);
        sim::fault("source-unresolvable");
        if(!res && !h.fatals && !h.errors) sim::fail("silent-failure", "a source that cannot be opened was parsed without any error");
        upset = true;
      } else {
        int out = parse_outcome(*r.r, h, d, sp);
        if(kind >= 1 && kind < 4) { check_damaged(c, d, h, out); upset = true; }
        else if(h.thrown) {
          sim::log("handler threw: %s", outcome_name(out)); upset = true;
          if(out != EXC_BOOM) sim::fail("exception-lost", S("a handler threw but parse() ") + (out == RETURNED ? "returned normally" : "ended with another exception"));
        } else {
          sim::log("intact parse: %s, %d errors %d fatal", outcome_name(out), h.errors, h.fatals);
          if(out != RETURNED) sim::fail("exception", "parsing a well-formed document with a used parser ended with an exception");
          if(h.fatals || h.errors) sim::fail("error-on-good-input", "a used parser reported an error for a well-formed document: " + h.first_error);
          sim::expect_eq("events", join(comparable(c.want, backend)), join(comparable(h.events(), backend)), S(backend_name(backend)) + " events of a used parser differ");
        }
      }
      live[k] = sim::live_blocks();
    }
    if(reps == 5) {
      sim::probe("same-parse-repeated");
      if(live[4] > live[3] && live[3] > live[2]) sim::fail("leak", "repeating the same parse with one parser keeps allocating: " + std::to_string(live[2]) + ", " + std::to_string(live[3]) + ", " + std::to_string(live[4]) + " live blocks");
    }
    if(last && upset) sim::nontrivial();
  }
  sim::sample(S(backend_name(backend)) + " history of " + std::to_string(n) + " parses");
}

// ---------------------------------------------------------------- handler exceptions
void p04() {
  int backend = choose_backend();
  Opt o = options(backend); o.budget = 25;
  Case c = make_case(backend, choose_set(backend), o);
  sim::heap_choose_policy();
  describe(c);
  Damage d; d.bytes = c.bytes; bool bad = chance(1, 4);
  if(bad) d = choose_damage(c);
  Split sp = sim::choose_split(d.bytes.size());
  long calls = 0;
  sim::step_limit(100000000ull);
  { Recorder<str> h; Holder r{ new_reader(c.set, h) }; parse_outcome(*r.r, h, d, sp); calls = h.calls; }
  if(calls == 0) return;
  // near the start, anywhere, or the last few (where errors are reported)
  long k = chance(1, 4) ? calls - 1 - (long)choose((uint32_t)std::min<long>(calls, 4)) : (long)choose((uint32_t)calls);
  int tk = (int)choose(3);
  sim::log("throw from callback %ld of %ld, kind %d%s%s", k, calls, tk, bad ? ", " : "", d.what.c_str());
  sim::shape(sim::hash_str(d.bytes)); sim::shape(k); sim::shape(tk + backend * 8); for(auto x : sp.sizes) sim::shape(x);
  sim::sample(S(backend_name(backend)) + " callback " + std::to_string(k) + " throws: " + sim::quote(d.bytes, 300));
  size_t live[3];
  for(int rep = 0; rep != 3; ++rep) {
    sim::step_limit(100000000ull);
    {
      Recorder<str> h; Holder r{ new_reader(c.set, h) };
      h.throw_at = k; h.throw_kind = tk; h.boom_id = 100 + rep;
      int out = parse_outcome(*r.r, h, d, sp);
      if(!h.thrown) sim::fail("events-differ", "the same parse made fewer callbacks the second time");
      if(out != EXC_BOOM) sim::fail("exception-lost", S(backend_name(backend)) + ": a handler threw but parse() " + (out == RETURNED ? "returned normally" : "ended with another exception"));
      S why;
      if(!prefix_of_intact(c, h, &why)) sim::fail("bogus-events", why);
    }
    live[rep] = sim::live_blocks();
  }
  sim::nontrivial();
  if(live[2] > live[1]) sim::fail("leak", S(backend_name(backend)) + ": " + std::to_string(live[2] - live[1]) + " blocks leaked per aborted parse: " + sim::live_report());
}

sim::Reg r01("P01", p01, warm_parsers, 400000000ull);
sim::Reg r02("P02", p02, warm_parsers, 400000000ull);
sim::Reg r03("P03", p03, warm_parsers, 400000000ull);
sim::Reg r04("P04", p04, warm_parsers, 400000000ull);
}
