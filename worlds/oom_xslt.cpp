// P20: allocations fail while stylesheets are compiled and executed. The stylesheets and documents are P16's.
#include "xslt.cpp"
#include "oom.hpp"
namespace {
using oom::Scenario; using oom::Maker;
// kind 0: compiling; 1: executing to a stream; 2: executing to a DOM
struct Xs : Scenario {
  int kind; S main, xml; std::unique_ptr<Compiler> c; std::unique_ptr<Sheet> sheet; std::unique_ptr<Stream> st; HookBuf msg; std::ostream mos; Document d; S r; bool bad = false;
  Xs(int kind, const S& main, const S& xml) : kind(kind), main(main), xml(xml), mos(&msg) { }
  ~Xs() { msg.disarm(); Sut s; sheet.reset(); c.reset(); d = Document(); }
  void start() override { { Sut s; c.reset(new Compiler); } d = parse(xml); st.reset(new Stream); if(kind) { S e; sheet = compile(main, e, c.get()); settle(); } }
  void settle() { Sut s; sheet->set_output(*st->sink); sheet->set_error_output(mos); }
  void op() override {
    { Shield sh; r.clear(); bad = false; st->buf.clear(); st->os.clear(); mos.clear(); msg.clear(); }
    if(kind == 0) {
      { Arabica::SAX::InputSource<str> is{str(main)}; std::unique_ptr<Sheet> n; struct Quiet { Quiet() { sim::never_fail = false; } } q; n = c->compile(is); sheet.reset(); sheet.swap(n); }
      Shield sh; if(!sheet) { bad = true; r = "error"; }
      return;
    }
    std::unique_ptr<Cerr> ce; { Shield sh; ce.reset(new Cerr); } struct Off { std::unique_ptr<Cerr>& c; ~Off() { Shield s; c.reset(); } } off{ ce };
    Node n = d;
    if(kind == 1) sheet->execute(n);
    else { DOMSink ds; sheet->set_output(ds); try { sheet->execute(n); } catch(...) { sheet->set_output(*st->sink); throw; } sheet->set_output(*st->sink); Node t = ds.node(); Shield sh; sim::NoFail nf; for(auto& e : DomDump<str>::of(t)) r += e + "\n"; }
    Shield sh; r += st->buf.data() + "\n" + msg.data();
  }
  S result() override {
    if(kind == 0 && sheet) { settle(); st->buf.clear(); st->os.clear(); msg.clear(); mos.clear(); Node n = pick_node(d, 0); Outcome o; execute(o, *sheet, n, msg, mos); o.out = st->buf.data(); r = o.all(); Sut s; n = Node(); }
    return noids(r);
  }
  // generate-id() is an address
  static S noids(const S& s) { S o; for(size_t i = 0; i < s.size(); ++i) { o += s[i]; if(s[i] == '0' && s[i + 1] == 'x') { o += 'x'; ++i; while(i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) ++i; } } return o; }
  bool prefix_ok(const S&, const S& w) override { if(kind != 1) return true; S g = noids(st->buf.data()); return !w.compare(0, g.size(), g); }
  bool reported() override { return bad || !st->os || !mos; }
};
Maker make_xslt() {
  prepare(); Gen g; S main = g.make("sim://host/s/"); S xml = g.source(); show_files(); sim::note("document: %s", quote(xml, 1500).c_str());
  int kind = choose(3); return [=] { return std::unique_ptr<Scenario>(new Xs(kind, main, xml)); };
}
}
namespace oom { Maker xslt() { return make_xslt(); } }
