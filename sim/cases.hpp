// Cases shared by the worlds that parse: a document with its bytes and expected events, and ways to damage it.
#ifndef VERIF_SIM_CASES_HPP
#define VERIF_SIM_CASES_HPP
#include "sax.hpp"
#include <sstream>
namespace simsax {
using sim::Split; using sim::IoFail;
typedef std::string str;
typedef Readers<str>::R Reader;
typedef Arabica::SAX::InputSource<str> Source;

inline Opt options(int backend) {
  Opt o; o.backend = backend;
  if(backend == LIBXML2) { o.blank_text = false; o.default_attrs = false; }
  if(backend == XERCES) o.nonbmp = false;
  return o;
}

inline int choose_backend() { uint32_t k = choose(6); return k < 3 ? EXPAT : k == 3 ? LIBXML2 : XERCES; }

struct Case { Doc doc; Set set; S bytes; Events want; bool dtfirst; };

inline Case make_case(int backend, const Set& set, const Opt& o) {
  Case c;
  c.set = set;
  Gen g(o);
  c.doc = g.doc();
  maybe_align(c.doc, backend);
  c.dtfirst = serialise(c.doc);
  c.bytes = encode(c.doc.text, c.doc.encoding);
  Exp e(c.doc, set); e.run(c.dtfirst);
  c.want = e.ev;
  return c;
}

// libxml2 hands long CDATA sections over in pieces, so its wrapper cannot tell adjacent sections apart: compared merged
inline Events comparable(const Events& e, int backend) {
  if(backend == EXPAT) return e;
  Events r = without_dtd(e), m;
  if(backend == XERCES) r.erase(std::remove(r.begin(), r.end(), S("P dtdpi data")), r.end());   // Xerces keeps PIs of the DTD to itself
  if(backend != LIBXML2) return r;
  for(size_t i = 0; i != r.size(); ++i) {
    if(r[i] == "CD-" && i + 1 < r.size() && r[i + 1] == "CD+") { ++i; continue; }
    if(!m.empty() && r[i].compare(0, 2, "T ") == 0 && m.back().compare(0, 2, "T ") == 0) m.back() += r[i].substr(2);
    else m.push_back(r[i]);
  }
  return m;
}

// how the client hands the stream over (P has parse(Source&))
template<class P> void parse_bytes(P& r, const S& bytes, const Split& sp, IoFail f = sim::IO_NONE, size_t at = 0, int pre = 0, bool mask = false) {
  sim::InStream* s = new sim::InStream(bytes, sp, f, at);
  std::unique_ptr<sim::InStream> hold(s);
  if(pre == 1) s->setstate(std::ios::badbit);
  if(pre == 2) s->setstate(std::ios::failbit);
  if(mask) { try { s->exceptions(std::ios::badbit); } catch(...) { } }
  if(choose(3) == 0) { Source src(*s); sim::Sut sut; r.parse(src); }
  else if(coin()) { hold.release(); Source src((std::unique_ptr<std::istream>(s))); sim::Sut sut; r.parse(src); }
  else { Source src; src.setByteStream(*s); sim::Sut sut; r.parse(src); }
}

// ---------------------------------------------------------------- broken input
struct Damage { S bytes, what; IoFail f = sim::IO_NONE; size_t at = 0; int pre = 0; bool mask = false, must_fail = true; };

inline size_t encoded_offset(const Case& c, size_t text_offset) { return encode(c.doc.text.substr(0, text_offset), c.doc.encoding).size(); }

inline Damage choose_damage(const Case& c, int kinds = 5) {
  Damage d; d.bytes = c.bytes;
  size_t end = encoded_offset(c, c.doc.root_end);
  const S& t = c.doc.text;
  auto where = [&](size_t n) {       // positions: anywhere, near a buffer boundary, near the end
    uint32_t k = choose(6);
    if(n == 0) return size_t(0);
    if(k == 4) { size_t b = (1 + choose(3)) * size_t(choose(2) ? 4096 : 10240); size_t x = b + choose(3) - 1; return x < n ? x : n - 1; }
    if(k == 5) return n - 1 - choose((uint32_t)std::min<size_t>(n, 4));
    return (size_t)choose((uint32_t)n);
  };
  switch(choose(kinds)) {
    case 0: d.f = sim::IO_EOF; d.at = where(end); d.what = "truncated at " + std::to_string(d.at); break;
    case 1: case 2: {
      S x = t; size_t at = 0; S ins;
      uint32_t k = choose(16);
      bool utf = c.doc.encoding == 0 || c.doc.encoding == 1 || c.doc.encoding == 5;
      if(k < 8 && !c.doc.content_points.empty()) {
        static const std::vector<S> bad = { "< ", "& ", "&nope;", "</wrong>", "<1/>", "\x01", "]]>", "&#0;" };
        ins = bad[k]; at = c.doc.content_points[choose((uint32_t)c.doc.content_points.size())];
      } else if(k >= 8 && k < 13 && !c.doc.tag_points.empty()) {
        static const std::vector<S> bad = { " zz='1' zz='2'", " zz", " zz=1", " zz='<'", " zz='&nope;'" };
        ins = bad[k - 8]; at = c.doc.tag_points[choose((uint32_t)c.doc.tag_points.size())];
      } else if(k == 13 && !c.doc.name_points.empty()) {
        ins = "X"; at = c.doc.name_points[choose((uint32_t)c.doc.name_points.size())];
      } else if(k == 14 && utf && !c.doc.content_points.empty()) {
        ins = coin() ? "\xff" : "\xc3 "; at = c.doc.content_points[choose((uint32_t)c.doc.content_points.size())];
      } else { ins = "<second/>"; at = t.size(); }
      if(ins == "\xff" || ins == "\xc3 ") {
        S head = encode(t.substr(0, at), c.doc.encoding);
        d.bytes = head + ins + encode(t, c.doc.encoding).substr(head.size());
      } else { x.insert(at, ins); d.bytes = encode(x, c.doc.encoding); }
      d.what = "inserted " + sim::quote(ins) + " at " + std::to_string(at);
      sim::fault("malformed");
      break; }
    case 3: d.f = sim::IO_THROW; d.at = where(c.bytes.size() + 1); d.mask = chance(1, 3); d.must_fail = d.at < end; d.what = "stream fails at " + std::to_string(d.at) + (d.mask ? " with exceptions enabled" : ""); break;
    case 4: d.pre = 1 + (int)choose(2); d.mask = d.pre == 1 && chance(1, 4); d.what = d.pre == 1 ? "stream already bad" : "stream already failed"; sim::fault("stream-bad-at-start"); break;
  }
  return d;
}

} // namespace simsax
#endif
