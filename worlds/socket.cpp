// P10: socket streams and http: resolution over a simulated network.  The socket system calls are interposed;
// descriptors from FD0 on belong to the simulation, everything else goes to the kernel.
#include "../sim/cases.hpp"
#include <io/socket_stream.hpp>
#include <SAX/helpers/InputSourceResolver.hpp>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <poll.h>
#include <signal.h>
#include <errno.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <map>
using namespace simsax;
namespace {
const int FD0 = 1 << 20;
// --- the far end ------------------------------------------------------------------------
struct Server {
  std::string send; bool reset = false;        // what it says before it closes (or resets)
  bool waits = false;                          // only speaks once it has a complete request
  long takes = -1;                             // resets after having accepted that many bytes
  int connect = 0;                             // errno of connect, 0 accepts
  int chunk = 0;                               // most bytes per recv/send, 0 = all
  int eintr = 0, transient = 0;                // one in n calls is interrupted / a send fails for once
  std::string received; size_t at = 0; int connects = 0, opened = 0, closed = 0; bool rst_seen = false;
  long sends_failed = 0;
};
struct Fd { Server* s = nullptr; bool open = true, wr_shut = false, rd_shut = false; };
std::vector<Fd> fds;
std::map<uint64_t, Server*> listening;         // address << 16 | port
std::map<std::string, uint32_t> names;         // host names the resolver knows
int open_fds = 0, calls = 0;
bool dns_down = false;

Fd* simfd(int fd) { return fd >= FD0 && fd - FD0 < (int)fds.size() ? &fds[fd - FD0] : nullptr; }
int err(int e) { errno = e; return -1; }
void counted() { if(++calls > 200000) sim::fail("unbounded-work", "200000 socket calls for one case"); }
bool request_complete(const std::string& r) { return r.find("\r\n\r\n") != std::string::npos || r.find("\n\n") != std::string::npos; }

long sim_send(Fd& f, const char* p, size_t n, int flags) {
  sim::Shield sh; counted();
  if(!f.open) return err(EBADF);
  if(!f.s) return err(ENOTCONN);
  if(n == 0) return 0;
  Server& s = *f.s;
  if(s.eintr && sim::chance(1, s.eintr)) { sim::fault("send interrupted"); return err(EINTR); }
  if(s.transient && sim::chance(1, s.transient)) { sim::fault("send fails once"); ++s.sends_failed; return err(ENOBUFS); }
  if(f.wr_shut || (s.takes >= 0 && (long)s.received.size() >= s.takes)) {
    struct sigaction sa; sigaction(SIGPIPE, 0, &sa);
    ++s.sends_failed; sim::fault("send to a closed connection");
    if(!(flags & MSG_NOSIGNAL) && sa.sa_handler != SIG_IGN) sim::fail("sigpipe", "a send to a peer that has gone raises SIGPIPE, which ends the process");
    return err(s.rst_seen ? EPIPE : ((s.rst_seen = true), ECONNRESET));
  }
  size_t k = n;
  if(s.takes >= 0) k = std::min<size_t>(k, s.takes - s.received.size());
  if(s.chunk) k = std::min<size_t>(k, 1 + sim::choose(s.chunk));
  if(k < n) sim::fault("short send");
  s.received.append(p, k);
  return k;
}
long sim_recv(Fd& f, char* p, size_t n, int flags) {
  sim::Shield sh; counted();
  if(!f.open) return err(EBADF);
  if(!f.s) return err(ENOTCONN);
  Server& s = *f.s;
  if(s.eintr && sim::chance(1, s.eintr)) { sim::fault("recv interrupted"); return err(EINTR); }
  if(f.rd_shut) return 0;
  bool dead = s.takes >= 0 && (long)s.received.size() >= s.takes && s.waits && !request_complete(s.received);
  if(!dead && s.waits && !request_complete(s.received)) sim::fail("deadlock", "the client waits for a response, the server for the end of the request, having " + sim::quote(s.received));
  size_t left = dead ? 0 : s.send.size() - s.at;
  if(!left) {
    if(!s.reset && !dead) return 0;
    if(s.rst_seen) return 0;                   // the kernel reports a reset once
    s.rst_seen = true; sim::fault("connection reset while reading");
    return err(ECONNRESET);
  }
  size_t k = std::min(left, n);
  if(s.chunk) k = std::min<size_t>(k, 1 + sim::choose(s.chunk));
  if(k < std::min(left, n)) sim::fault("short recv");
  std::copy(s.send.begin() + s.at, s.send.begin() + s.at + k, p);
  if(!(flags & MSG_PEEK)) s.at += k;
  return k;
}
uint32_t resolve(const char* name) {           // network order, 0 unknown
  in_addr a; if(inet_aton(name, &a)) return a.s_addr;
  if(dns_down) { sim::fault("name resolution fails"); return 0; }
  auto i = names.find(name); return i == names.end() ? 0 : i->second;
}
}
extern "C" {
int socket(int d, int t, int p) noexcept {
  if(d != AF_INET) return syscall(SYS_socket, d, t, p);
  sim::Shield sh; counted();
  if(sim::chance(1, 40)) { sim::fault("out of descriptors"); return err(EMFILE); }
  fds.push_back(Fd()); ++open_fds; return FD0 + fds.size() - 1;
}
int connect(int fd, const sockaddr* a, socklen_t n) {
  Fd* f = simfd(fd); if(!f) return syscall(SYS_connect, fd, a, n);
  sim::Shield sh; counted();
  const sockaddr_in* in = (const sockaddr_in*)a;
  if(n < sizeof *in || in->sin_family != AF_INET) return err(EINVAL);
  auto i = listening.find((uint64_t)in->sin_addr.s_addr << 16 | ntohs(in->sin_port));
  if(i == listening.end()) { sim::fault("connection refused"); return err(ECONNREFUSED); }
  ++i->second->connects;
  if(i->second->connect) { sim::fault("connect fails"); return err(i->second->connect); }
  f->s = i->second; ++f->s->opened; return 0;
}
ssize_t send(int fd, const void* p, size_t n, int fl) { Fd* f = simfd(fd); return f ? sim_send(*f, (const char*)p, n, fl) : fd >= FD0 || fd < 0 ? err(EBADF) : syscall(SYS_sendto, fd, p, n, fl, 0, 0); }
ssize_t sendto(int fd, const void* p, size_t n, int fl, const sockaddr* a, socklen_t l) { Fd* f = simfd(fd); return f ? sim_send(*f, (const char*)p, n, fl) : syscall(SYS_sendto, fd, p, n, fl, a, l); }
ssize_t recv(int fd, void* p, size_t n, int fl) { Fd* f = simfd(fd); return f ? sim_recv(*f, (char*)p, n, fl) : fd >= FD0 || fd < 0 ? err(EBADF) : syscall(SYS_recvfrom, fd, p, n, fl, 0, 0); }
ssize_t recvfrom(int fd, void* p, size_t n, int fl, sockaddr* a, socklen_t* l) { Fd* f = simfd(fd); return f ? sim_recv(*f, (char*)p, n, fl) : syscall(SYS_recvfrom, fd, p, n, fl, a, l); }
ssize_t write(int fd, const void* p, size_t n) { Fd* f = fd >= FD0 ? simfd(fd) : nullptr; return f ? sim_send(*f, (const char*)p, n, 0) : syscall(SYS_write, fd, p, n); }
ssize_t read(int fd, void* p, size_t n) { Fd* f = fd >= FD0 ? simfd(fd) : nullptr; return f ? sim_recv(*f, (char*)p, n, 0) : syscall(SYS_read, fd, p, n); }
int close(int fd) {
  Fd* f = fd >= FD0 ? simfd(fd) : nullptr; if(!f) return syscall(SYS_close, fd);
  sim::Shield sh; counted();
  if(!f->open) { sim::fail("double-close", "a socket is closed a second time"); }
  f->open = false; --open_fds; if(f->s) ++f->s->closed;
  if(f->s && f->s->eintr && sim::chance(1, 8)) { sim::fault("close reports an error"); return err(EIO); }
  return 0;
}
int shutdown(int fd, int how) noexcept { Fd* f = simfd(fd); if(!f) return syscall(SYS_shutdown, fd, how); if(how != SHUT_RD) f->wr_shut = true; if(how != SHUT_WR) f->rd_shut = true; return 0; }
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) noexcept { return simfd(fd) ? 0 : syscall(SYS_setsockopt, fd, l, o, v, n); }
int getsockopt(int fd, int l, int o, void* v, socklen_t* n) noexcept { if(!simfd(fd)) return syscall(SYS_getsockopt, fd, l, o, v, n); if(n && *n >= sizeof(int)) *(int*)v = 0; return 0; }
int poll(pollfd* p, nfds_t n, int t) { for(nfds_t i = 0; i < n; ++i) if(!simfd(p[i].fd)) return syscall(SYS_poll, p, n, t); for(nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events & (POLLIN | POLLOUT); return n; }
hostent* gethostbyname(const char* name) {
  sim::Shield sh; static hostent h; static uint32_t addr; static char* list[2]; static char* aliases[1];
  addr = resolve(name); if(!addr) return nullptr;
  list[0] = (char*)&addr; list[1] = nullptr; aliases[0] = nullptr;
  h.h_name = (char*)"host"; h.h_aliases = aliases; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list; return &h;
}
struct AI { addrinfo i; sockaddr_in a; };
int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res) {
  sim::Shield sh; uint32_t a = node ? resolve(node) : htonl(INADDR_LOOPBACK); if(!a) return EAI_NONAME;
  AI* x = new AI(); x->a.sin_family = AF_INET; x->a.sin_addr.s_addr = a; x->a.sin_port = htons(service ? atoi(service) : 0);
  x->i.ai_family = AF_INET; x->i.ai_socktype = SOCK_STREAM; x->i.ai_protocol = hints ? hints->ai_protocol : 0; x->i.ai_addrlen = sizeof x->a; x->i.ai_addr = (sockaddr*)&x->a; *res = &x->i; return 0;
}
void freeaddrinfo(addrinfo* a) noexcept { sim::Shield sh; delete (AI*)a; }
}
namespace {
// --- cases --------------------------------------------------------------------------------
std::string data(int codec) {
  std::string s; int n; switch(sim::choose(8)) { case 0: case 1: case 2: case 3: n = sim::small(60); break; case 4: n = sim::range(1010, 1040); break; case 5: n = sim::range(2030, 2060); break; case 6: n = sim::range(3000, 9000); break; default: n = 0; }
  int k = codec ? 256 : 26, per = sim::range(1, 12); std::string pat; for(int i = 0; i < per; ++i) { int c = sim::choose(k); pat += codec ? (char)(sim::chance(1, 4) ? "\xff\r\n\0"[c & 3] : c) : (char)('a' + c); }
  uint32_t x = 1; while((int)s.size() < n) { x = x * 1103515245 + 12345; s += pat[s.size() % per]; if((x >> 16) % 13 == 0) s += (char)('0' + (x >> 20) % 10); }
  s.resize(n); return s;
}
struct Place { std::string host; int port; };
Place place(Server& s) {
  Place p; p.host = sim::coin() ? "10.0.0.1" : "server.example"; p.port = sim::pick(std::vector<int>{80, 8080, 65535, 1});
  names["server.example"] = inet_addr("10.0.0.1");
  listening[(uint64_t)inet_addr("10.0.0.1") << 16 | p.port] = &s; return p;
}
void mood(Server& s) {
  s.chunk = sim::choose(3) ? sim::choose(4) ? sim::range(1, 50) : sim::range(900, 1200) : 0;
  s.eintr = sim::coin() ? sim::range(2, 12) : 0;
}
void fresh() { fds.clear(); listening.clear(); names.clear(); open_fds = calls = 0; dns_down = sim::chance(1, 20); }
typedef Arabica::io::socketstream SS;

// --- the stream itself ------------------------------------------------------------------------
void stream_case() {
  fresh();
  std::vector<std::unique_ptr<Server>> servers; uint64_t sh = 1;
  std::unique_ptr<SS> ss; int rounds = sim::range(1, 3);
  { sim::Sut su; ss.reset(new SS()); }
  for(int r = 0; r < rounds; ++r) {
    servers.emplace_back(new Server); Server& s = *servers.back(); mood(s);
    s.send = data(1); s.reset = sim::chance(1, 3);
    if(sim::chance(1, 4)) s.takes = sim::choose(3000) >> sim::choose(8);
    if(sim::chance(1, 5)) s.transient = sim::range(2, 6);
    if(sim::chance(1, 8)) s.connect = sim::coin() ? ECONNREFUSED : sim::coin() ? ETIMEDOUT : EINTR;
    Place p = place(s); if(sim::chance(1, 16)) p.host = sim::coin() ? "nowhere.example" : "";
    sim::note("connect to %s:%d, which sends %zu bytes%s, takes %ld, chunks of %d, EINTR 1/%d", p.host.c_str(), p.port, s.send.size(), s.reset ? " and resets" : "", s.takes, s.chunk, s.eintr);
    bool anew = sim::chance(1, 4);
    { sim::Sut su; if(anew) ss.reset(new SS(p.host.c_str(), p.port)); else { ss->clear(); ss->open(p.host.c_str(), p.port); } }
    bool up = ss->is_open();
    sim::log("open %d good %d", up, ss->good());
    if(!up && ss->good()) sim::fail("silent-failure", "the connection could not be made and the stream is good");
    if(up && (!s.opened || !ss->good())) sim::fail("bogus-open", "the stream says it is open");
    if(!up) { if(s.opened > s.closed) sim::fail("leak", "a connection was opened and the stream is not open"); sh = sh * 31 + 1; continue; }
    sim::nontrivial();
    std::string wrote, got; size_t seen_fail = 0; bool dirty = false;   // dirty: something was written while the stream could not take it
    bool ended = false;
    auto check_prefix = [&]() { if(wrote.compare(0, s.received.size(), s.received) != 0) sim::fail("wrong-bytes-sent", "the peer received other bytes than were written: expected a prefix of " + sim::quote(wrote, 200) + " got " + sim::quote(s.received, 200) + " lengths " + std::to_string(wrote.size()) + " " + std::to_string(s.received.size())); };
    int ops = sim::small(12);
    for(int i = 0; i < ops && !ended; ++i) {
      int op = sim::choose(8); sh = sh * 31 + op + 2;
      if(!ss->good() && sim::coin()) { sim::Sut su; ss->clear(); }
      bool was_good = ss->good(), was_open = ss->is_open();
      switch(op) {
        case 0: case 1: case 2: {
          std::string d = data(1); int how = sim::choose(3);
          if(was_good && was_open) wrote += d; else dirty = true;
          sim::note("write %zu bytes, good %d open %d", d.size(), was_good, was_open);
          { sim::Sut su; if(how == 0) ss->write(d.data(), d.size()); else if(how == 1) *ss << d; else for(size_t j = 0; j < d.size(); ++j) ss->put(d[j]); }
          if(was_open && was_good && !ss->good()) sim::fail("write-failed", "writing to an open connection's buffer failed");
          if(was_good && !was_open && !d.empty() && ss->good()) sim::fail("silent-failure", "writing to a closed stream left it good");
          break; }
        case 3: {
          long before = s.sends_failed;
          { sim::Sut su; ss->flush(); }
          sim::note("flush: good %d, peer has %zu of %zu", ss->good(), s.received.size(), wrote.size());
          if(was_good && was_open && ss->good() && s.received != wrote) { check_prefix(); sim::fail("silent-failure", "flush succeeded and the peer has " + std::to_string(s.received.size()) + " of " + std::to_string(wrote.size()) + " bytes"); }
          if(was_good && was_open && !ss->good() && s.sends_failed == before) sim::fail("false-failure", "flush failed though no send did");
          seen_fail = before; break; }
        case 4: case 5: case 6: {
          std::string b(1 + sim::small(sim::coin() ? 40 : 4000), 0); size_t n = 0; int how = sim::choose(4);
          { sim::Sut su;
            if(how <= 1) { ss->read(&b[0], b.size()); n = ss->gcount(); }
            else if(how == 2) for(; n < b.size() && n < 50; ++n) { int c = ss->get(); if(c == EOF) break; b[n] = c; }
            else { std::string line; std::getline(*ss, line); sim::Shield shd; b = line; n = line.size(); if(ss->good()) { b += '\n'; ++n; } } }
          got.append(b, 0, n);
          sim::note("read %zu bytes, good %d eof %d bad %d", n, ss->good(), ss->eof(), ss->bad());
          if(s.send.compare(0, got.size(), got) != 0) sim::fail("wrong-bytes-read", "the bytes read are not those the peer sent: expected " + sim::quote(s.send, 200) + " got " + sim::quote(got, 200));
          if(was_open && was_good && ss->eof() && !ss->bad() && (got != s.send || s.reset)) sim::fail("silent-failure", std::string("end of stream after ") + std::to_string(got.size()) + " of " + std::to_string(s.send.size()) + " bytes" + (s.reset ? ", the connection was reset" : ""));
          if(was_open && was_good && ss->bad() && !s.reset && !s.sends_failed && !s.eintr) sim::fail("false-failure", "reading failed though the connection is sound");
          if(ss->eof() && !ss->bad() && !ss->is_open() && wrote != s.received && was_good && was_open) sim::fail("silent-failure", "the stream closed itself with unsent output and no failure");
          break; }
        case 7: {
          if(sim::coin() && !got.empty() && was_good && was_open) {          // put back and read again
            int k = std::min<int>(1 + sim::choose(4), got.size());
            sim::Sut su;
            for(int j = 0; j < k; ++j) { ss->unget(); if(!ss->good()) { sim::Shield shd; sim::fail("unget", "unget failed"); } }
            for(int j = k; j > 0; --j) { int c = ss->get(); if(c != (unsigned char)got[got.size() - j]) { sim::Shield shd; sim::fail("unget", "another character came back"); } }
            break;
          }
          if(!was_open) break;
          { sim::Sut su; ss->close(); }
          sim::note("close: good %d", ss->good());
          if(ss->is_open()) sim::fail("still-open", "closed and still open");
          if(was_good && ss->good() && s.received != wrote) { check_prefix(); sim::fail("silent-failure", "close succeeded and the peer has " + std::to_string(s.received.size()) + " of " + std::to_string(wrote.size()) + " bytes"); }
          ended = true; break; }
      }
      check_prefix();
      sim::log("op %d got %zu received %zu good %d", op, got.size(), s.received.size(), ss->good());
    }
    if(!ended) {
      bool destroy = sim::coin();
      { sim::Sut su; if(destroy) ss.reset(new SS()); else if(ss->is_open()) ss->close(); }
      check_prefix();
    }
    if(s.opened != s.closed) sim::fail("leak", "the connection is still open");
    (void)seen_fail; (void)dirty;
  }
  { sim::Sut su; ss.reset(); }
  if(open_fds) sim::fail("leak", std::to_string(open_fds) + " sockets left open");
  sim::shape(sh);
}

// --- http: ------------------------------------------------------------------------------------
std::string header() {
  const char* nl = sim::choose(4) ? "\r\n" : "\n";
  std::string h = "HTTP/1.0 200 OK"; h += nl;
  for(int i = sim::small(5); i > 0; --i) { h += "X-Header: "; int n = sim::choose(5) ? sim::small(30) : sim::choose(3) ? sim::range(990, 1030) : sim::range(2000, 5000); h.append(n, (char)('a' + sim::choose(3))); if(!sim::choose(6)) h += "\rx"; h += nl; }
  return h + nl;
}
void http_case() {
  fresh();
  bool xml = sim::chance(1, 4);
  Server s; mood(s); s.waits = sim::choose(4) != 0;
  Case c; std::string body;
  int backend = sim::choose(3) ? EXPAT : LIBXML2;
  if(xml) { c = make_case(backend, choose_set(backend), options(backend)); body = c.bytes; } else body = sim::coin() ? data(1) : "\r\n\n" + data(0);
  std::string head = header();
  s.send = head + body;
  bool cut = sim::chance(1, 3); if(cut) { s.send.resize(sim::choose(4) ? sim::choose(s.send.size() + 1) : std::min(s.send.size(), head.size() + sim::choose(3) - std::min<size_t>(head.size(), 1))); sim::fault("response cut off"); }
  s.reset = cut && sim::coin();
  if(sim::chance(1, 8)) s.takes = sim::choose(60);
  if(sim::chance(1, 12)) s.connect = sim::coin() ? ECONNREFUSED : ETIMEDOUT;
  Place p = place(s);
  std::string path = sim::choose(4) ? sim::pick(std::vector<std::string>{"/dev/null", "/a.xml", "/", "/x/y?z=1"}) : "";
  std::string url = "http://" + p.host + (p.port == 80 && sim::coin() ? "" : ":" + std::to_string(p.port)) + path;
  sim::note("%s: %zu header bytes, %zu body bytes, sends %zu%s, takes %ld, chunk %d, eintr %d, connect %d, waits %d", url.c_str(), head.size(), body.size(), s.send.size(), s.reset ? " and resets" : "", s.takes, s.chunk, s.eintr, s.connect, s.waits);
  sim::sample(url); sim::nontrivial();
  if(s.send.size() < head.size()) body.clear(); else body = s.send.substr(head.size());
  bool headers = s.send.size() >= head.size();
  if(xml) {
    Recorder<str> h; h.plain_local = !c.set.namespaces;
    std::unique_ptr<Reader> r; { sim::Sut su; r.reset(Readers<str>::make(backend)); Readers<str>::configure(*r, c.set); h.attach(*r); }
    bool threw = false;
    try { Source src; src.setSystemId(url); sim::Sut su; r->parse(src); } catch(std::exception&) { threw = true; }
    bool seen = threw || h.fatals || h.errors, whole = s.opened && headers && body == c.bytes && !s.reset;
    sim::log("parsed %d %d %d", threw, h.fatals, h.errors);
    bool delivered = s.opened && s.at == s.send.size() && (s.takes < 0 || request_complete(s.received));
    if(delivered && whole && seen) sim::fail("error-on-good-input", "a document served completely was not parsed: " + h.first_error);
    if((!delivered || !headers || s.reset) && !seen) sim::fail("silent-failure", "the document could not be fetched and parse reported nothing");
    if(!seen && whole) sim::expect_eq("events", join(comparable(c.want, backend)), join(comparable(h.events(), backend)), "events of a document fetched over http differ");
    S why; if(!threw && backend == EXPAT && !is_prefix(comparable(h.events(), backend), comparable(c.want, backend), &why)) sim::fail("bogus-events", why);
    { sim::Sut su; r.reset(); }
  } else {
    typedef Arabica::SAX::InputSource<str> IS;
    Arabica::default_string_adaptor<str> SA;
    bool ok = false, bad = false; std::string got;
    { sim::Sut su;
      IS is; is.setSystemId(url);
      Arabica::SAX::InputSourceResolver res(is, SA);
      if(std::istream* in = res.resolve()) {
        ok = true; char buf[700];
        for(;;) { size_t n; { sim::Shield sh; n = 1 + sim::choose(sizeof buf); } in->read(buf, n); { sim::Shield sh; got.append(buf, in->gcount()); } if(!in->good()) break; }
        bad = in->bad();
      }
    }
    sim::log("resolved %d bad %d %zu", ok, bad, got.size());
    bool requested = request_complete(s.received);
    if(ok && !s.opened) sim::fail("bogus-content", "nothing could be fetched and yet a stream came back");
    if(ok && !headers) sim::fail("bogus-content", "the response ended within its headers and yet a stream came back");
    if(ok && body.compare(0, got.size(), got) != 0) sim::fail("wrong-bytes-read", "expected " + sim::quote(body, 200) + " got " + sim::quote(got, 200));
    if(ok && !bad && (got != body || s.reset)) sim::fail("silent-failure", "a plain end of stream after " + std::to_string(got.size()) + " of " + std::to_string(body.size()) + " bytes" + (s.reset ? ", the connection was reset" : ""));
    if(!ok && s.opened && headers && requested && s.takes < 0) sim::fail("not-fetched", "the server sent complete headers and no stream came back");
    if(ok && bad && !s.reset) sim::fail("false-failure", "reading failed though the connection is sound");
  }
  if(s.opened) {
    std::string want = "GET " + (path.empty() ? "/" : path) + " HTTP/1.";
    if(s.received.compare(0, want.size(), want, 0, s.received.size()) != 0) sim::fail("wrong-request", sim::quote(s.received));
  }
  if(open_fds) sim::fail("leak", std::to_string(open_fds) + " connections left open");
  uint64_t sh = 7 + xml; for(uint64_t x : {(uint64_t)s.send.size(), (uint64_t)s.reset, (uint64_t)s.chunk, (uint64_t)s.eintr, (uint64_t)s.takes, (uint64_t)head.size(), (uint64_t)s.connect}) sh = sh * 31 + x;
  sim::shape(sh);
}
void p10() {
  sim::heap_choose_policy();
  if(sim::coin()) http_case(); else stream_case();
}
sim::Reg r10("P10", p10, warm_parsers, 100000000);
}
