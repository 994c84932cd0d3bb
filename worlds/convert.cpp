// P09: conversion streams over sinks and sources that take and give any number
// of characters at a time and fail at a drawn point.
#include "../sim/core.hpp"
#include <io/convert_adaptor.hpp>
#include <io/convertstream.hpp>
#include <convert/base64codecvt.hpp>
#include <convert/rot13codecvt.hpp>
#include <convert/iso88591utf8codecvt.hpp>
#include <convert/utf8iso88591codecvt.hpp>
#include <convert/ucs2utf8codecvt.hpp>
#include <convert/utf16utf8codecvt.hpp>
#include <convert/utf8ucs2codecvt.hpp>
#include <convert/utf16beucs2codecvt.hpp>
#include <convert/utf16leucs2codecvt.hpp>
#include <memory>
using namespace sim;
namespace {
namespace cv = Arabica::convert;
typedef std::vector<uint32_t> Text;
enum Codec { ROT13, BASE64, UTF8_ISO, ISO_UTF8, UTF8_UCS2, UTF16BE, UTF16LE, UCS2_UTF8, UTF16_UTF8, NCODEC };
const char* NAMES[] = {"rot13", "base64", "utf8iso88591", "iso88591utf8", "utf8ucs2", "utf16beucs2", "utf16leucs2", "ucs2utf8", "utf16utf8"};

// --- reference encodings ------------------------------------------------------------
void utf8(std::string& o, uint32_t c) {
  if(c < 0x80) o += (char)c;
  else if(c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if(c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
std::string base64(const std::string& s) {
  static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o; size_t i = 0;
  for(; i + 2 < s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i+1] << 8 | (uint8_t)s[i+2]; o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += T[v & 63]; }
  if(s.size() - i == 1) { uint32_t v = (uint8_t)s[i] << 16; o += T[v >> 18]; o += T[v >> 12 & 63]; o += "=="; }
  if(s.size() - i == 2) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i+1] << 8; o += T[v >> 18]; o += T[v >> 12 & 63]; o += T[v >> 6 & 63]; o += '='; }
  return o;
}
// the unit sequence on either side, per character
void enc(int kind, uint32_t c, std::string& o) {       // 0 byte, 1 utf8, 2 utf16be, 3 utf16le
  switch(kind) { case 0: o += (char)c; break; case 1: utf8(o, c); break; case 2: o += (char)(c >> 8); o += (char)c; break; case 3: o += (char)c; o += (char)(c >> 8); break; }
}
void enc(int, uint32_t c, std::wstring& o) { o += (wchar_t)c; }
struct Spec { int inner, outer; uint32_t max; };
const Spec SPEC[] = {{0, 0, 255}, {0, 0, 255}, {0, 1, 255}, {1, 0, 255}, {0, 1, 0x10FFFF}, {0, 2, 0xFFFF}, {0, 3, 0xFFFF}, {1, 0, 0x10FFFF}, {1, 0, 0x10FFFF}};
template<class C> std::basic_string<C> inner(int codec, const Text& t) { std::basic_string<C> o; for(auto c : t) enc(SPEC[codec].inner, c, o); return o; }
char rot(uint8_t c) { if(c >= 'a' && c <= 'z') return 'a' + (c - 'a' + 13) % 26; if(c >= 'A' && c <= 'Z') return 'A' + (c - 'A' + 13) % 26; return c; }
std::string codeBytes(int codec, std::string s) { if(codec == BASE64) return base64(s); if(codec == ROT13) for(auto& c : s) c = rot((uint8_t)c); return s; }
std::wstring codeBytes(int, std::wstring s) { return s; }
template<class E> std::basic_string<E> outer(int codec, const Text& t) { std::basic_string<E> o; for(auto c : t) enc(SPEC[codec].outer, c, o); return codeBytes(codec, o); }
std::locale loc(int codec) {
  std::locale c = std::locale::classic();
  switch(codec) {
    case ROT13: return std::locale(c, new cv::rot13codecvt); case BASE64: return std::locale(c, new cv::base64codecvt);
    case UTF8_ISO: return std::locale(c, new cv::utf8iso88591codecvt); case ISO_UTF8: return std::locale(c, new cv::iso88591utf8codecvt);
    case UTF8_UCS2: return std::locale(c, new cv::utf8ucs2codecvt); case UTF16BE: return std::locale(c, new cv::utf16beucs2codecvt); case UTF16LE: return std::locale(c, new cv::utf16leucs2codecvt);
    case UCS2_UTF8: return std::locale(c, new cv::ucs2utf8codecvt); default: return std::locale(c, new cv::utf16utf8codecvt);
  }
}
std::string show(const std::string& s) { return quote(s, 300); }
std::string show(const std::wstring& s) { std::string o; for(auto c : s) utf8(o, c); return quote(o, 300); }
template<class S> std::string differ(const S& want, const S& got) {
  size_t i = 0; while(i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  size_t f = i > 20 ? i - 20 : 0;
  return "lengths " + std::to_string(want.size()) + " and " + std::to_string(got.size()) + ", same up to " + std::to_string(i) + "\nexpected from there: " + show(want.substr(f, 60)) + "\ngot: " + show(got.substr(f, 60));
}
// --- simulated devices ------------------------------------------------------------------
struct DeviceError {};
template<class E> struct Sink : std::basic_streambuf<E> {
  typedef std::char_traits<E> T; typedef typename T::int_type I;
  std::basic_string<E> got; long limit = -1; bool throws = false; int bufsz; std::vector<E> buf; long failures = 0;
  Sink(int b) : bufsz(b), buf(b ? b : 1) { reset(); }
  void reset() { if(bufsz) this->setp(&buf[0], &buf[0] + bufsz); }
  bool full() { if(limit >= 0 && (long)got.size() >= limit) { ++failures; Shield s; fault(throws ? "sink throws" : "sink refuses"); if(throws) throw DeviceError(); return true; } return false; }
  bool take(E c) { if(full()) return false; Shield s; got += c; return true; }
  struct Keep { Sink& s; E* p; ~Keep() { Shield sh; int n = s.pptr() - p; std::copy(p, s.pptr(), &s.buf[0]); s.reset(); s.pbump(n); } };
  bool drain() { Keep k = {*this, this->pbase()}; while(k.p < this->pptr()) { if(!take(*k.p)) return false; ++k.p; } return true; }
  I overflow(I c) override { if(bufsz && !drain()) return T::eof(); if(T::eq_int_type(c, T::eof())) return T::not_eof(c); if(bufsz) { *this->pptr() = T::to_char_type(c); this->pbump(1); return c; } return take(T::to_char_type(c)) ? c : T::eof(); }
  int sync() override { return !bufsz || drain() ? 0 : -1; }
  std::streamsize xsputn(const E* s, std::streamsize n) override { std::streamsize i = 0; for(; i < n; ++i) if(T::eq_int_type(this->sputc(s[i]), T::eof())) break; return i; }
};
template<class E> struct Source : std::basic_streambuf<E> {
  typedef std::char_traits<E> T; typedef typename T::int_type I;
  std::basic_string<E> data; size_t at = 0; long failAt = -1; std::vector<E> buf; int maxChunk;
  Source(const std::basic_string<E>& d, int chunk) : data(d), maxChunk(chunk) {}
  I underflow() override {
    Shield s;
    if(this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
    if(failAt >= 0 && (long)at >= failAt) { fault("source throws"); throw DeviceError(); }
    size_t left = data.size() - at; if(failAt >= 0) left = std::min(left, (size_t)failAt - at);
    if(!left) return T::eof();
    size_t n = std::min<size_t>(left, maxChunk ? 1 + choose(maxChunk) : left); if(maxChunk && n < left) fault("short read");
    buf.assign(data.begin() + at, data.begin() + at + n); at += n;
    this->setg(&buf[0], &buf[0], &buf[0] + n); return T::to_int_type(buf[0]);
  }
};
uint32_t ch(int codec) {
  uint32_t m = SPEC[codec].max;
  if(codec == BASE64) switch(choose(4)) { case 0: return 'a' + choose(26); case 1: return 0; case 2: return 0x80 + choose(128); default: return choose(256); }
  switch(choose(8)) {
    case 0: case 1: case 2: return 'a' + choose(26);
    case 3: return 0xA0 + choose(0x60);
    case 4: return m > 255 ? 0x100 + choose(0x700) : choose(256);
    case 5: return m > 255 ? 0x3040 + choose(0x60) : choose(128);
    case 6: return m > 0xFFFF ? 0x1F600 + choose(64) : m > 255 ? 0xFFFD : 255;
    default: return choose(5) ? '\n' : 0;
  }
}
Text drawText(int codec) {
  int n; switch(choose(10)) { case 0: case 1: case 2: case 3: case 4: n = small(40); break; case 5: n = range(330, 350); break; case 6: n = range(500, 520); break; case 7: n = range(1010, 1040); break; case 8: n = range(2030, 2070); break; default: n = range(4080, 5200); }
  Text t;
  if(n <= 60) { for(int i = 0; i < n; ++i) t.push_back(ch(codec)); return t; }
  // long: a drawn short pattern repeated, with a drawn start
  Text p; int k = range(1, 8); for(int i = 0; i < k; ++i) p.push_back(ch(codec));
  int lead = choose(6); for(int i = 0; i < lead; ++i) t.push_back(ch(codec));
  for(int i = 0; (int)t.size() < n; ++i) t.push_back(p[i % k]);
  return t;
}

// --- writing ----------------------------------------------------------------------------
template<class C, class E> std::basic_string<E> writeTest(int codec, const Text& t, std::locale l) {
  typedef std::basic_string<C> SC; typedef std::basic_string<E> SE;
  SC in = inner<C>(codec, t);
  SE want; size_t segStart = 0;                     // base64 closes a group at each flush
  auto segment = [&](size_t upto) { if(codec != BASE64) return; SC s = in.substr(segStart, upto - segStart); std::basic_string<E> o(s.begin(), s.end()); want += codeBytes(codec, o); segStart = upto; };
  if(codec != BASE64) want = outer<E>(codec, t);
  Sink<E> sink(choose(3) ? 0 : range(1, 16));
  bool willFail = chance(1, 3), transient = false;
  if(willFail) { sink.limit = choose(want.size() + (codec == BASE64 ? in.size() * 2 : 0) + 2); sink.throws = coin(); transient = coin(); }
  note("write %d characters with %s: sink %s%ld", (int)t.size(), NAMES[codec], willFail ? sink.throws ? "throws at " : "refuses at " : "takes all", sink.limit);
  uint64_t sh = codec * 4 + willFail * 2 + sink.throws;
  { Sut su;
    std::basic_ostream<E> under(&sink);
    Arabica::io::oconvert_adaptor<C, std::char_traits<C>, E, std::char_traits<E> > os(under);
    os.imbue(l);
    size_t at = 0; bool failed = false;
    auto afterFlush = [&]() {
      Shield s; segment(at);
      if(sink.failures && !os.bad() && !os.fail()) fail("silent-failure", "the sink failed and flush left the stream good");
      if(!sink.failures && (os.bad() || os.fail())) fail("false-failure", "the stream failed on a sink that takes everything");
      if(sink.failures) failed = true;
    };
    while(at < in.size() && !failed) {
      size_t left = in.size() - at, n; int how;
      { Shield s; n = choose(4) == 0 ? 1 : std::min<size_t>(left, 1 + small(choose(6) ? 30 : 3000)); how = choose(4); }
      sh = sh * 31 + how * 8 + (n > 1) ;
      switch(how) {
        case 0: os.write(in.data() + at, n); break;
        case 1: for(size_t i = 0; i < n; ++i) os.put(in[at + i]); break;
        case 2: os << SC(in, at, n); break;
        case 3: static_cast<std::basic_ios<C>&>(os).rdbuf()->sputn(in.data() + at, n); break;
      }
      at += n;
      if(chance(1, 5)) { note("flush after %d units", (int)at); sh = sh * 31 + 7; os.flush(); afterFlush(); }
    }
    if(!failed) { os.flush(); afterFlush(); }
    if(failed) {
      if(want.compare(0, sink.got.size(), sink.got) != 0) { Shield s; fail("not-a-prefix", std::string(NAMES[codec]) + ": what the sink took before it failed: " + differ(want, sink.got)); }
      if(!transient) { Shield s; shape(sh); return SE(); }
      // the device recovers: everything written so far arrives
      note("sink recovers"); { Shield s; fault("sink recovers"); }
      sink.limit = -1; os.clear(); os.flush();
      if(at < in.size()) { os.write(in.data() + at, in.size() - at); at = in.size(); os.flush(); segment(at); }
      if(!os.good()) { Shield s; fail("false-failure", "the stream failed on a sink that has recovered"); }
    }
  }
  sink.limit = -1; sink.sync();      // what a buffering sink accepted is its own business
  if(sink.got != want) fail("wrong-output", std::string(NAMES[codec]) + ": " + differ(want, sink.got));
  result("written", std::string((const char*)sink.got.data(), sink.got.size() * sizeof(E)));
  log("w %d %u", codec, (unsigned)hash_bytes(1, sink.got.data(), sink.got.size() * sizeof(E)));
  shape(sh);
  return sink.got;
}
// --- reading ------------------------------------------------------------------------------
template<class C, class E> void readTest(int codec, const Text& t, std::basic_string<E> data, std::locale l, bool decorate) {
  typedef std::basic_string<C> SC; typedef std::char_traits<C> T;
  SC want = inner<C>(codec, t);
  if(codec == BASE64 && decorate) for(int i = choose(4); i > 0; --i) data.insert(choose(data.size() + 1), choose(6) ? 1 : 1100, '\n');
  int maxChunk = choose(3) ? choose(6) ? range(1, 40) : range(900, 1100) : 0;
  Source<E> src(data, maxChunk), src2(data, 0);
  bool thr = chance(1, 6); if(thr) src.failAt = choose(data.size() + 1);
  bool trunc = !thr && codec != BASE64 && codec != ROT13 && chance(1, 8);
  bool again = !thr && !trunc && chance(1, 4);
  if(trunc) { src.data.resize(choose(src.data.size() + 1)); fault("input cut off"); }
  note("read %d external units with %s%s", (int)src.data.size(), NAMES[codec], thr ? ", source throws" : trunc ? ", cut" : "");
  SC got; uint64_t sh = 1000 + codec * 8 + thr * 4 + trunc * 2 + again; bool failedState = false;
  if(trunc) { size_t len = 0; SC w; for(auto c : t) { len += outer<E>(codec, Text(1, c)).size(); if(len > src.data.size()) break; enc(SPEC[codec].inner, c, w); } want = w; }
  SC twice = again ? want + want : want;
  { Sut su;
    std::basic_istream<E> under(&src), under2(&src2);
    Arabica::io::iconvert_adaptor<C, std::char_traits<C>, E, std::char_traits<E> > is(under);
    is.imbue(l);
    for(int guard = 0; guard < 20000; ++guard) {
      int how, n; { Shield s; how = choose(8); n = 1 + small(choose(4) ? 40 : 3000); }
      if(how != 0) sh = sh * 31 + how;
      if(!is.good()) {
        failedState = is.bad();
        if(is.bad() || !again) break;
        again = false; is.clear(); is.set_stream(under2); note("next stream"); continue;
      }
      switch(how) {
        case 0: case 1: { std::basic_string<C> b(n, C()); is.read(&b[0], n); Shield s; got.append(b.data(), is.gcount()); break; }
        case 2: case 3: for(int i = 0; i < n && i < 64; ++i) { typename T::int_type c = is.get(); if(T::eq_int_type(c, T::eof())) break; Shield s; got += T::to_char_type(c); } break;
        case 4: { typename T::int_type c = is.peek(); if(!T::eq_int_type(c, T::eof())) { typename T::int_type d = is.get(); if(!T::eq_int_type(c, d)) { Shield s; fail("peek", "get after peek gave another character"); } Shield s; got += T::to_char_type(d); } break; }
        case 5: { std::basic_string<C> b(n, C()); std::streamsize k = is.readsome(&b[0], n); Shield s; if(k > 0) got.append(b.data(), k); break; }
        case 6: { SC line; std::getline(is, line); Shield s; got += line; if(!is.eof() && !is.fail()) got += (C)'\n'; break; }
        case 7: {                                   // put back and read again
          int k = std::min<int>(1 + n % 4, got.size()); if(!is.good()) break;
          for(int i = 0; i < k; ++i) { is.unget(); if(!is.good()) { Shield s; fail("unget", "unget " + std::to_string(i + 1) + " of at most 4 failed after " + std::to_string(got.size()) + " characters"); } }
          for(int i = k; i > 0; --i) { typename T::int_type c = is.get(); if(!T::eq_int_type(c, T::to_int_type(got[got.size() - i]))) { Shield s; fail("unget", "a character put back and read again is another one"); } }
          Shield s; probe("unget"); break; }
      }
    }
  }
  if(thr) {
    if(want.compare(0, got.size(), got) != 0) fail("not-a-prefix", std::string(NAMES[codec]) + ": what was read before the source failed: " + differ(want, got));
    if(got != want && !failedState) fail("silent-failure", "the source failed and the reader saw a plain end of input after " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " characters");
  } else if(got != twice) fail("wrong-input", std::string(NAMES[codec]) + ": " + differ(twice, got));
  result("read", std::string((const char*)got.data(), got.size() * sizeof(got[0])));
  log("r %d %d", codec, (int)got.size()); shape(sh);
}
// --- string streams -----------------------------------------------------------------------
template<class C, class E> void stringTest(int codec, const Text& t, std::locale l) {
  typedef std::basic_string<C> SC; typedef std::basic_string<E> SE;
  uint64_t sh = 2000 + codec; SE all;
  { Sut su;
    Arabica::io::basic_oconvertstream<C, std::char_traits<C>, E, std::char_traits<E> > os; os.imbue(l);
    size_t at = 0, from = 0;
    while(at < t.size()) {
      size_t n; bool take; { Shield s; n = std::min<size_t>(t.size() - at, 1 + small(choose(4) ? 40 : 5000)); take = chance(1, 3) || at + n == t.size(); }
      SC piece; { Shield s; piece = inner<C>(codec, Text(t.begin() + at, t.begin() + at + n)); }
      os << piece; at += n;
      if(take) { SE o = os.str(); Shield s; SE w = outer<E>(codec, Text(t.begin() + from, t.begin() + at)); if(o != w) fail("wrong-string", std::string(NAMES[codec]) + " oconvertstream: " + differ(w, o)); all += o; from = at; sh = sh * 31 + 3; }
    }
  }
  SC want = inner<C>(codec, t), got;
  { Sut su;
    Arabica::io::basic_iconvertstream<C, std::char_traits<C>, E, std::char_traits<E> > is; is.imbue(l);
    int rounds; { Shield s; rounds = range(1, 2); }
    for(int r = 0; r < rounds; ++r) {
      is.clear(); is.str(all);
      SC g; for(;;) { std::basic_string<C> b(97, C()); is.read(&b[0], 97); g.append(b.data(), is.gcount()); if(!is.good()) break; }
      Shield s; if(g != want || is.bad()) fail("wrong-string", std::string(NAMES[codec]) + " iconvertstream: " + differ(want, g));
    }
    // cut off anywhere: still ends
    size_t cut; { Shield s; cut = choose(all.size() + 1); fault("input cut off"); }
    is.clear(); is.str(all.substr(0, cut));
    SC g = is.str(); Shield s; if(codec != BASE64 && want.compare(0, g.size(), g) != 0) fail("not-a-prefix", std::string(NAMES[codec]) + " iconvertstream, cut off: " + differ(want, g));
  }
  log("s %d %d", codec, (int)all.size()); shape(sh);
}
template<class C, class E> void all(int codec) {
  std::locale l = loc(codec);
  Text t = drawText(codec); if(t.empty()) t.push_back('a');
  switch(choose(4)) {
    case 0: stringTest<C, E>(codec, t, l); break;
    case 1: readTest<C, E>(codec, t, outer<E>(codec, t), l, true); break;
    default: {
      std::basic_string<E> o = writeTest<C, E>(codec, t, l);
      if(!o.empty() && coin()) readTest<C, E>(codec, t, o, l, false);
    }
  }
  nontrivial();
}
template<class C> void unrepresentable(int codec) {          // a character the encoding here cannot hold: reported, not changed
  Text t = drawText(codec); t.insert(t.begin() + choose(t.size() + 1), codec == ISO_UTF8 ? 0x100 + choose(0x700) : 0x1F600 + choose(64));
  size_t good = 0; while(t[good] <= SPEC[codec].max) ++good;
  std::string want = outer<char>(codec, Text(t.begin(), t.begin() + good)); std::basic_string<C> in = inner<C>(codec, t);
  Sink<char> sink(0); bool ok;
  { Sut s; std::ostream under(&sink); Arabica::io::oconvert_adaptor<C, std::char_traits<C>, char> os(under); os.imbue(loc(codec)); os << in; os.flush(); ok = os.good(); }
  probe("not representable");
  if(codec == ISO_UTF8) {                  // documented in the code: a question mark stands in
    Text u = t; for(auto& c : u) if(c > 255) c = '?';
    if(!ok || sink.got != outer<char>(codec, u)) fail("wrong-output", differ(outer<char>(codec, u), sink.got));
    return;
  }
  if(ok) fail("silent-failure", std::string(NAMES[codec]) + ": a character the encoding cannot hold was written and the stream is good");
  if(want.compare(0, sink.got.size(), sink.got) != 0) fail("not-a-prefix", differ(want, sink.got));
}
void p09() {
  heap_choose_policy();
  int codec = choose(NCODEC);
  sample(NAMES[codec]);
  if(chance(1, 40)) switch(codec) {
    case ISO_UTF8: unrepresentable<char>(codec); return;
    case UTF16BE: case UTF16LE: unrepresentable<wchar_t>(codec); return;
  }
  switch(codec) {
    case ROT13: case BASE64: case UTF8_ISO: case ISO_UTF8: all<char, char>(codec); break;
    case UTF8_UCS2: case UTF16BE: case UTF16LE: all<wchar_t, char>(codec); break;
    default: all<char, wchar_t>(codec);
  }
}
sim::Reg r09("P09", p09, nullptr, 50000000);
}
