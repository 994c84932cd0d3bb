// Simulated byte streams: every split, failure position and failure style comes from a plan drawn from the tape.
#ifndef VERIF_SIM_STREAMS_HPP
#define VERIF_SIM_STREAMS_HPP
#include "core.hpp"
#include <streambuf>
#include <istream>
#include <ostream>
#include <cstring>

namespace sim {

struct IoError : std::exception { const char* what() const noexcept { return "simulated I/O error"; } };

enum IoFail { IO_NONE, IO_EOF /* input ends early */, IO_THROW /* the stream buffer throws */, IO_BAD /* device error: short count + badbit */ };

struct Split { std::vector<uint32_t> sizes; }; // cycled; empty = all at once

inline Split choose_split(size_t total) {
  Split s;
  switch(choose(6)) {
    case 0: case 1: break;
    case 2: s.sizes.push_back(1); break;
    case 3: s.sizes.push_back(1 + choose(7)); break;
    case 4: { int n = 1 + choose(6); for(int i = 0; i != n; ++i) s.sizes.push_back(1 + small(40)); break; }
    case 5: { int n = 1 + choose(4); for(int i = 0; i != n; ++i) s.sizes.push_back(1 + choose((uint32_t)std::min<size_t>(total + 1, 20000))); break; }
  }
  return s;
}

template<class charT>
class BasicInBuf : public std::basic_streambuf<charT> {
public:
  typedef std::char_traits<charT> tr;
  typedef std::basic_string<charT> str;
  BasicInBuf(const str& d, const Split& s, IoFail f = IO_NONE, size_t at = 0)
    : data_(d), split_(s), fail_(f), at_(at), pos_(0), k_(0), fired_(false), reads_(0) { }
  bool fired() const { return fired_; }
  size_t delivered() const { return pos_; }
  size_t reads() const { return reads_; }
protected:
  typename tr::int_type underflow() override {
    Shield sh;
    ++reads_;
    size_t end = data_.size();
    if(fail_ != IO_NONE && at_ < end) end = at_;
    if(fail_ != IO_NONE && at_ <= data_.size() && pos_ >= at_) {
      if(!fired_) fault(fail_ == IO_EOF ? "input-truncated" : "input-stream-throws");
      fired_ = true;
      if(fail_ != IO_EOF) throw IoError();
      return tr::eof();
    }
    if(pos_ >= end) return tr::eof();
    size_t n = end - pos_;
    if(!split_.sizes.empty()) {
      size_t w = split_.sizes[k_++ % split_.sizes.size()];
      if(w < n) { n = w; fault("short-read"); }
    }
    cur_.assign(data_, pos_, n);
    pos_ += n;
    this->setg(&cur_[0], &cur_[0], &cur_[0] + n);
    return tr::to_int_type(cur_[0]);
  }
private:
  str data_; Split split_; IoFail fail_; size_t at_, pos_, k_; bool fired_; size_t reads_; str cur_;
};
typedef BasicInBuf<char> InBuf;
typedef BasicInBuf<wchar_t> WInBuf;

// an istream owning its buffer, allocated outside the simulated heap by the harness
class InStream : public std::istream {
public:
  InStream(const std::string& d, const Split& s, IoFail f = IO_NONE, size_t at = 0) : std::istream(nullptr), buf(d, s, f, at) { rdbuf(&buf); }
  InBuf buf;
};

// a sink that accepts `limit` units and then fails
template<class charT>
class BasicOutBuf : public std::basic_streambuf<charT> {
public:
  typedef std::char_traits<charT> tr;
  typedef std::basic_string<charT> str;
  BasicOutBuf() : fail_(IO_NONE), limit_(0), fired_(false), sync_fail_(false), syncs_(0), width_(0) { }
  void arm(IoFail f, size_t limit) { fail_ = f; limit_ = limit; fired_ = false; }
  void disarm() { fail_ = IO_NONE; fired_ = false; }
  void short_writes(unsigned w) { width_ = w; }
  bool fired() const { return fired_; }
  const str& data() const { return data_; }
  void clear() { data_.clear(); }
  size_t syncs() const { return syncs_; }
protected:
  bool room(size_t n) { return fail_ == IO_NONE || data_.size() + n <= limit_; }
  void refuse() {
    if(!fired_) fault(fail_ == IO_THROW ? "output-stream-throws" : "output-full");
    fired_ = true;
    if(fail_ == IO_THROW) throw IoError();
  }
  typename tr::int_type overflow(typename tr::int_type c) override {
    Shield sh;
    if(tr::eq_int_type(c, tr::eof())) return tr::not_eof(c);
    if(!room(1)) { refuse(); return tr::eof(); }
    data_.push_back(tr::to_char_type(c));
    return c;
  }
  std::streamsize xsputn(const charT* s, std::streamsize n) override {
    Shield sh;
    if(fail_ != IO_NONE && data_.size() + n > limit_) {
      size_t k = limit_ > data_.size() ? limit_ - data_.size() : 0;
      data_.append(s, k);
      fault("short-write");
      refuse();
      return (std::streamsize)k;
    }
    data_.append(s, n);
    return n;
  }
  int sync() override { Shield sh; ++syncs_; if(fail_ != IO_NONE && fired_) { if(fail_ == IO_THROW) throw IoError(); return -1; } return 0; }
private:
  str data_; IoFail fail_; size_t limit_; bool fired_, sync_fail_; size_t syncs_; unsigned width_;
};
typedef BasicOutBuf<char> OutBuf;
typedef BasicOutBuf<wchar_t> WOutBuf;

} // namespace sim
#endif
