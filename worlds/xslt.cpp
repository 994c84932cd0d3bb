// P16, P17: compiled stylesheets through histories of executions, and the compiler under delivery splits and faults.
#include "../sim/sax.hpp"
#include "../sim/dom.hpp"
#include <SAX/helpers/InputSourceResolver.hpp>
#include <XSLT/XSLT.hpp>
using namespace simsax;
using sim::choose; using sim::coin; using sim::chance; using sim::range; using sim::Sut; using sim::Shield; using sim::fail; using sim::note; using sim::quote; using sim::log;
using sim::IoFail; using sim::IO_NONE; using sim::IO_EOF; using sim::IO_THROW; using sim::IO_BAD; using sim::Split;

namespace {
typedef std::string str; typedef Arabica::SAX::InputSource<str> Source;
typedef Arabica::XSLT::StylesheetCompiler<str> Compiler;
typedef Arabica::XSLT::Stylesheet<str> Sheet;
typedef Arabica::XSLT::StreamSink<str> StreamSink;
typedef Arabica::XSLT::DOMSink<str> DOMSink;
typedef Arabica::DOM::Document<str> Document;
typedef Arabica::DOM::Node<str> Node;
typedef Arabica::DOM::Element<str> Element;

// ---- the files the stylesheets refer to --------------------------------------------------------
struct File { S bytes; Split split; IoFail f = IO_NONE; size_t at = 0; bool missing = false; bool mask = false; int opened = 0; };
std::map<S, File> files;
std::istream* open_file(const std::string& url) {
  Shield sh;
  auto f = files.find(url);
  if(f == files.end() || f->second.missing) { sim::fault("source-unresolvable"); return 0; }
  ++f->second.opened;
  struct Out : std::istream { sim::InBuf b; Out(const File& f) : std::istream(nullptr), b(f.bytes, f.split, f.f, f.at) { rdbuf(&b); } };
  Out* o = new Out(f->second);
  if(f->second.mask) o->exceptions(std::ios::badbit);
  return o;
}

// ---- generated stylesheets ----------------------------------------------------------------------
S num(int n) { return std::to_string(n); }
struct Gen {
  int vars = 0, texts = 0, named = 0; bool terminate = false, dyn = false, docs = false, imports = false; S doc;
  std::vector<S> scope;                         // variables in scope
  struct Body { int depth = 3; bool apply = true, calls = true, leaf = false, imports_ok = true; int first_call = 0; };
  int applies = 0;
  S path() { static const std::vector<S> p = { ".", "*", "a", "b", "c", "@id", "@x", "text()", "node()", "a/b", ".//c", "..", "b[@id]", "*[position()=last()]", "*[1]", "ancestor::*", "preceding-sibling::*", "following-sibling::*[1]", "//b", "a | c" }; return sim::pick(p); }
  S expr() {
    switch(choose(14)) {
      case 0: case 1: return path();
      case 2: return "name()";
      case 3: return "position()";
      case 4: return "last()";
      case 5: return "count(" + path() + ")";
      case 6: return "concat('&lt;', " + path() + ", '&amp;]]')";
      case 7: return scope.empty() ? "string(@id)" : "$" + sim::pick(scope);
      case 8: return "key('k', '" + num(choose(4)) + "')";
      case 9: return "key('k', " + path() + ")/@x";
      case 10: return "sum(" + S(coin() ? "//@id" : "*/@id") + ") + " + num(choose(5));
      case 11: return docs ? "document('" + doc + "')//a[1]" : "string(.)";
      case 12: return "count(current()/*) + count(//a)";
      default: return coin() ? "$g" + num(choose(3)) : "$p" + num(choose(2));
    }
  }
  S test() {
    switch(choose(7)) {
      case 0: return "@id = '" + num(choose(4)) + "'";
      case 1: return path();
      case 2: return "position() = last()";
      case 3: return "position() mod 2 = 1";
      case 4: return "not(" + path() + ")";
      case 5: return "self::a";
      default: return "$p" + num(choose(2)) + " = '1'";
    }
  }
  S text() { static const std::vector<S> t = { "t", "x &lt; y", "&amp;amp;", "]]&gt;", "z", "\xC3\xA9", "  ", "--", "?>" }; return sim::pick(t) + (coin() ? num(texts++) : ""); }
  S sorts() {                                             // sort keys, whose order and type may be worked out anew for each execution
    static const std::vector<S> on = { "@id", "@x", "name()", ".", "count(*)" }, of = { "count(//a)", "count(*)", "count(//@id)" };
    S r; if(!chance(1, 3)) return r;
    for(int n = range(1, 2); n; --n) {
      r += "<xsl:sort select=\"" + sim::pick(on) + "\"";
      switch(choose(4)) { case 0: break; case 1: r += " order=\"descending\""; break; default: { S m = sim::pick(of) + " mod 2"; r += " order=\"{substring('ade', 1 + " + m + ", 1 + " + m + ")}scending\""; } }
      switch(choose(4)) { case 0: break; case 1: r += " data-type=\"number\""; break; case 2: { S m = sim::pick(of) + " mod 2"; r += " data-type=\"{substring('textnumber', 1 + 4 * (" + m + "), 4 + 2 * (" + m + "))}\""; } }
      r += "/>";
    }
    return r;
  }
  S params(const Body&) { S r; if(chance(1, 3)) r += "<xsl:with-param name=\"q\" select=\"" + expr() + "\"/>"; if(chance(1, 6)) r += "<xsl:with-param name=\"r\">" + text() + "</xsl:with-param>"; return r; }
  S body(Body b) {
    size_t mark = scope.size(); S r;
    int n = range(1, b.depth > 1 ? 4 : 2);
    for(int i = 0; i < n; ++i) r += item(b);
    scope.resize(mark);
    return r;
  }
  S item(Body& b) {
    Body in = b; --in.depth;
    bool deep = b.depth > 0;
    switch(choose(deep ? 22 : 4)) {
      case 0: return chance(1, 2) ? text() : "<xsl:text>" + text() + "</xsl:text>";
      case 1: return "<xsl:value-of select=\"" + expr() + "\"/>";
      case 2: return "<e/>";
      case 3: return "<xsl:value-of select=\"" + expr() + "\"" + (chance(1, 4) ? " disable-output-escaping=\"yes\"" : "") + "/>";
      case 4: case 5: { S ns = chance(1, 6) ? S(" xmlns:n=\"urn:n\" n:y=\"1\"") : chance(1, 6) ? S(" xmlns=\"urn:d\"") : S(); return S("<") + (chance(1, 3) ? "u" : "f") + ns + (coin() ? " at=\"{" + expr() + "}-" + text() + "\"" : "") + ">" + body(in) + "</" + "@@"; }
      case 6: case 7: case 8: if(b.leaf || !b.apply || applies >= 2) return text();
        { ++applies; S sel; switch(choose(5)) { case 0: case 1: break; case 2: sel = " select=\"*\""; break; case 3: sel = " select=\"@*|node()\""; break; case 4: sel = " select=\"a|b\""; break; }
          S ps = params(b), so = sorts();
          return "<xsl:apply-templates" + sel + (chance(1, 3) ? (coin() ? " mode=\"a-mode-with-a-long-name\"" : " mode=\"m\"") : "") + ">" + so + ps + "</xsl:apply-templates>"; }
      case 9: if(!b.calls || b.first_call >= named) return text(); { int t = range(b.first_call, named - 1); return "<xsl:call-template name=\"t" + num(t) + "\">" + params(b) + "</xsl:call-template>"; }
      case 10: { in.leaf = true; in.calls = false; in.depth = std::min(in.depth, 1); S sel = docs && chance(1, 4) ? "document('" + doc + "')//*" : chance(1, 5) ? "key('k', '1')" : path(); return "<xsl:for-each select=\"" + (sel.find("@") != S::npos || sel == "." ? S("*") : sel) + "\">" + sorts() + body(noimp(in)) + "</xsl:for-each>"; }
      case 11: return "<xsl:if test=\"" + test() + "\">" + body(in) + "</xsl:if>";
      case 12: return "<xsl:choose><xsl:when test=\"" + test() + "\">" + body(in) + "</xsl:when>" + (coin() ? "<xsl:otherwise>" + body(in) + "</xsl:otherwise>" : "") + "</xsl:choose>";
      case 13: return "<xsl:attribute name=\"" + S(chance(1, 3) ? "x{position()}" : "w") + "\"" + (chance(1, 5) ? " namespace=\"urn:a\"" : "") + ">" + (chance(1, 4) ? body(in) : text()) + "</xsl:attribute>";
      case 14: return coin() ? "<xsl:comment>" + (chance(1, 3) ? body(in) : text()) + "</xsl:comment>" : "<xsl:processing-instruction name=\"pi\">" + (chance(1, 3) ? body(in) : text()) + "</xsl:processing-instruction>";
      case 15: case 16: { if(terminate && chance(1, 3)) { S t = test(); return "<xsl:if test=\"" + t + "\"><xsl:message terminate=\"yes\">" + body(in) + "</xsl:message></xsl:if>"; } return "<xsl:message>" + body(in) + "</xsl:message>"; }
      case 17: { S v = "v" + num(vars++); S d = chance(1, 2) ? "<xsl:variable name=\"" + v + "\" select=\"" + expr() + "\"/>" : "<xsl:variable name=\"" + v + "\">" + body(noimp(in)) + "</xsl:variable>"; scope.push_back(v); return d + "<xsl:value-of select=\"$" + v + "\"/>"; }
      case 18: return coin() ? "<xsl:copy>" + body(in) + "</xsl:copy>" : "<xsl:copy-of select=\"" + (scope.empty() || coin() ? path() : "$" + sim::pick(scope)) + "\"/>";
      case 19: return "<xsl:element name=\"" + S(coin() ? "{name(/*)}" : "el") + "\"" + (chance(1, 5) ? " namespace=\"urn:e\"" : "") + ">" + body(in) + "</xsl:element>";
      case 20: return b.imports_ok && imports && !b.leaf && applies < 2 ? (++applies, S("<xsl:apply-imports/>")) : "<xsl:text disable-output-escaping=\"yes\">" + text() + "</xsl:text>";
      default: if(dyn && chance(1, 2)) { S t = test(), x = choose(2) ? S("key('nokey', 'x')") : S("document('" + doc + "', /)"); return "<xsl:if test=\"" + t + "\"><xsl:value-of select=\"" + x + "\"/></xsl:if>"; } return "<xsl:value-of select=\"concat(generate-id(.) = generate-id(..)" + S(docs || sim::comparing ? ", 1" : ", generate-id()") + ")\"/>";
    }
  }
  static Body noimp(Body b) { b.imports_ok = false; return b; }
  S close(S t) {                                          // fill in the element names of the literal result elements
    std::vector<S> open; S r;
    for(size_t i = 0; i < t.size(); ++i) {
      if(t.compare(i, 2, "<f") == 0 && (t[i + 2] == ' ' || t[i + 2] == '>')) open.push_back("f");
      if(t.compare(i, 2, "<u") == 0 && (t[i + 2] == ' ' || t[i + 2] == '>')) open.push_back("u");
      if(t.compare(i, 4, "</@@") == 0) { r += "</" + open.back() + ">"; open.pop_back(); i += 3; continue; }
      r += t[i];
    }
    return r;
  }
  S templ(const S& head, int first_call, bool calls, bool apply) {
    applies = 0; scope.clear(); S r = "<xsl:template " + head + ">";
    if(coin()) { r += "<xsl:param name=\"q\"" + S(coin() ? " select=\"'dq'\"/>" : ">dq</xsl:param>"); scope.push_back("q"); }
    if(chance(1, 5)) { r += "<xsl:param name=\"r\" select=\"count(*)\"/>"; scope.push_back("r"); }
    Body b; b.depth = range(1, 3); b.first_call = first_call; b.calls = calls; b.apply = apply;
    r += body(b); scope.clear();
    return r + "</xsl:template>\n";
  }
  S open() { return "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\">\n"; }
  S templates(int n) {
    static const std::vector<S> ms = { "a", "b", "c", "*", "/", "text()", "@id", "a/b", "b[@id='1']", "a|c", "@*", "comment()" };
    S r;
    for(int i = 0; i < n; ++i) r += templ("match=\"" + sim::pick(ms) + "\"" + (chance(1, 4) ? (coin() ? " mode=\"a-mode-with-a-long-name\"" : " mode=\"m\"") : "") + (chance(1, 6) ? " priority=\"" + num(choose(3)) + "\"" : ""), 0, true, true);
    return r;
  }
  S top() {
    S r;
    if(chance(2, 3)) { r += "<xsl:output";
      static const std::vector<S> m = { "", " method=\"xml\"", " method=\"text\"" }; r += sim::pick(m);
      if(chance(1, 4)) r += " indent=\"yes\""; if(chance(1, 4)) r += " omit-xml-declaration=\"yes\""; if(chance(1, 6)) r += " standalone=\"yes\""; if(chance(1, 6)) r += " doctype-system=\"s.dtd\""; if(chance(1, 3)) r += " cdata-section-elements=\"f e\"";
      r += "/>\n"; }
    r += "<xsl:key name=\"k\" match=\"" + S(coin() ? "*" : "a|b") + "\" use=\"" + S(coin() ? "@id" : "@x") + "\"/>\n"; if(chance(1, 4)) r += "<xsl:key name=\"k\" match=\"c\" use=\"string(.)\"/>\n";
    for(int i = 0; i < 2; ++i) r += "<xsl:param name=\"p" + num(i) + "\"" + (coin() ? " select=\"'" + num(i) + "'\"/>\n" : S(">dp<xsl:value-of select=\"name(/*)\"/></xsl:param>\n"));
    for(int i = 0; i < 3; ++i) { scope.clear(); if(i) scope.push_back("g" + num(i - 1)); scope.push_back("p0");
      Body b; b.depth = 1; b.apply = b.calls = false; b.leaf = true; b.imports_ok = false;
      r += "<xsl:variable name=\"g" + num(i) + "\""; if(coin()) { S e; do e = expr(); while(e[0] == '$' && (e[1] == 'g')); r += " select=\"" + e + "\"/>\n"; } else { S x = body2(b); r += ">" + x + "</xsl:variable>\n"; } }
    scope.clear();
    return r;
  }
  S body2(Body b) { S x; int tries = 0; do { x = body(b); } while(x.find("$g") != S::npos && ++tries < 6); return x.find("$g") != S::npos ? S("gv") : x; }
  // a family of files making up one stylesheet, spread over several folders; returns the main file's address
  std::map<std::pair<S, S>, S> where;            // (file, href) -> the file meant
  std::set<S> dirs;
  int parts = 0, marks = 0; std::vector<S> done;
  static S dir_of(const S& path) { return path.substr(0, path.rfind('/') + 1); }
  S mark() { S m = num(marks++); return "<xsl:template name=\"mark" + m + "\">[mark " + m + "]</xsl:template>\n"; }   // shows that a file was read to its end
  S link(const char* how, const S& from, int depth) {
    if(how[1] == 'm' && !done.empty() && chance(1, 2)) { S again = sim::pick(done); where[std::make_pair(from, again)] = again; sim::probe("a file imported again"); return "<xsl:import href=\"" + again + "\"/>\n"; }
    S n = "f" + num(parts++) + ".xsl", dir = dir_of(from), href;
    switch(choose(6)) {
      case 0: case 1: href = n; break;
      case 2: case 3: { S d = coin() ? "sub/" : "t/"; dir += d; href = d + n; break; }
      case 4: if(std::count(dir.begin(), dir.end(), '/') > 4) { dir = dir_of(dir.substr(0, dir.size() - 1)); href = "../" + n; } else href = n; break;
      default: href = dir + n;
    }
    where[std::make_pair(from, href)] = dir + n; dirs.insert(dir);
    part(dir + n, depth, how[1] == 'n'); done.push_back(dir + n);
    return S("<xsl:") + how + " href=\"" + href + "\"/>\n";
  }
  void part(const S& path, int depth, bool included) {
    S t = open(), inc;
    if(depth > 0 && parts < 6 && imports && chance(1, 4)) t += link("import", path, depth - 1);
    if(depth > 0 && parts < 6 && chance(1, 3)) inc = link("include", path, depth - 1);
    bool early = coin(); if(early) t += inc;
    t += templates(range(1, included ? 2 : 3));
    if(!early) t += inc;
    files[path].bytes = close(t + mark() + "</xsl:stylesheet>");
  }
  S make(const S& base) {
    named = choose(3); terminate = chance(1, 3); dyn = chance(1, 3); docs = chance(1, 2); doc = "data.xml"; imports = chance(1, 2);
    int nimp = imports ? range(1, 2) : 0, ninc = chance(1, 2) ? range(1, 2) : 0;
    S path = base + "main.xsl", main = open(); dirs.insert(base); dirs.insert(base + "sub/");
    for(int i = 0; i < nimp; ++i) main += link("import", path, 3);
    S tail; for(int i = 0; i < ninc; ++i) tail += link("include", path, 3);
    bool early = coin(); if(early) main += tail;
    main += top() + templates(range(1, 4));
    for(int i = 0; i < named; ++i) main += templ("name=\"t" + num(i) + "\"", i + 1, true, false);
    if(!early) main += tail;
    main += mark() + "<xsl:template match=\"marks\" priority=\"9\">"; for(int i = 0; i < marks; ++i) main += "<xsl:call-template name=\"mark" + num(i) + "\"/>";
    files[path].bytes = close(main + "</xsl:template>\n</xsl:stylesheet>\n");
    if(docs) { S d = source(); for(auto& x : dirs) files[x + "data.xml"].bytes = d; }
    return path;
  }
  // the stylesheet with what it includes written in place
  S flat(const S& path, bool top) {
    S t = files[path].bytes; if(!top) { t = t.substr(open().size()); t = t.substr(0, t.rfind("</xsl:stylesheet>")); }
    S r; size_t at = 0;
    while(true) {
      size_t i = std::min(t.find("<xsl:include href=\"", at), t.find("<xsl:import href=\"", at)); if(i == S::npos) break;
      r += t.substr(at, i - at); size_t q = t.find('"', i) + 1, e = t.find('"', q); S f = where[std::make_pair(path, t.substr(q, e - q))]; at = t.find('>', e) + 1;
      if(t.compare(i, 8, "<xsl:inc") == 0) r += flat(f, false); else r += "<xsl:import href=\"" + f + "\"/>";
    }
    return r + t.substr(at);
  }
  int elems = 0;
  S element(int d) {
    S n(1, (char)('a' + choose(3))); ++elems;
    S r = "<" + n; if(choose(4)) r += " id=\"" + num(choose(4)) + "\""; if(chance(1, 2)) r += " x=\"" + num(choose(4)) + "\""; r += ">";
    int k = d ? choose(4) : 0;
    for(int i = 0; i < k && elems < 10; ++i) { r += element(d - 1); if(chance(1, 3)) r += choose(2) ? "t" + num(choose(4)) : "&lt;"; if(chance(1, 8)) r += "<!--c--><?p d?>"; }
    if(!k) r += num(choose(4));
    return r + "</" + n + ">";
  }
  S source() { elems = 0; return element(3); }
};

std::unique_ptr<Sheet> compile(const S& main, S& error, Compiler* c = nullptr) {
  std::unique_ptr<Compiler> own; if(!c) { Sut s; own.reset(new Compiler); c = own.get(); }
  std::unique_ptr<Sheet> r;
  { Sut s; Arabica::SAX::InputSource<str> is{str(main)}; r = c->compile(is); }
  error = c->error();
  { Sut s; own.reset(); }
  return r;
}
Document parse(const S& xml) {
  Document d; sim::InStream in(xml, Split()); Sut s;
  Arabica::SAX2DOM::Parser<str> p; Source src(in); p.parse(src); d = p.getDocument();
  return d;
}

// ---- one execution and everything it shows --------------------------------------------------------
struct Outcome {
  S out, msg, err, what; int how = 0;
  S all() const { return "output: " + quote(out, 4000) + "\nmessages: " + quote(msg, 2000) + "\nstderr: " + quote(err, 1000) + "\nended: " + (how ? "exception: " + what : S("normally")); }
};
struct HookBuf : sim::OutBuf {                 // runs something in the middle of an execution
  long hook_at = -1; std::function<void()> hook; bool ran = false;
  void check() { if(hook_at >= 0 && !ran && (long)data().size() >= hook_at) { ran = true; Shield sh; hook(); } }
  int_type overflow(int_type c) override { int_type r = sim::OutBuf::overflow(c); check(); return r; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { std::streamsize r = sim::OutBuf::xsputn(s, n); check(); return r; }
};
struct Stream { HookBuf buf; std::ostream os; std::unique_ptr<StreamSink> sink; Stream() : os(&buf) { Sut s; sink.reset(new StreamSink(os)); } ~Stream() { buf.disarm(); Sut s; sink.reset(); } };
struct Cerr { std::stringbuf b; std::streambuf* old; Cerr() { old = std::cerr.rdbuf(&b); } ~Cerr() { std::cerr.rdbuf(old); } };
struct Fault { IoFail f = IO_NONE; size_t at = 0; bool mask = false; int which = 0; bool doc_missing = false; };
void execute(Outcome& o, Sheet& sh, const Node& n, HookBuf& msg, std::ostream& mos) {
  Cerr ce;
  try { Sut s; sh.execute(n); }
  catch(sim::IoError&) { o.how = 3; o.what = "I/O error"; }
  catch(std::ios_base::failure&) { o.how = 3; o.what = "I/O error"; }
  catch(Arabica::DOM::DOMException& e) { o.how = 2; o.what = S("DOM ") + e.what(); }
  catch(std::exception& e) { o.how = 1; o.what = e.what(); }
  o.err = ce.b.str(); mos.clear(); o.msg = msg.data();
}
struct Spec { int doc; int sink; Fault flt; };            // sink: 0 the stylesheet's stream sink, 1 a DOM sink of its own, 2 another stream sink, 3 another stylesheet's stream sink
void arm(Stream& st, HookBuf& msg, std::ostream& mos, const Fault& f) {
  st.os.exceptions(std::ios::goodbit); mos.exceptions(std::ios::goodbit); st.os.clear(); mos.clear(); st.buf.clear(); st.buf.disarm(); msg.clear(); msg.disarm();
  if(f.f) { (f.which ? msg : st.buf).arm(f.f, f.at); if(f.mask) (f.which ? mos : st.os).exceptions(std::ios::badbit); }
}
struct Subject {
  std::unique_ptr<Sheet> sheet; std::unique_ptr<Stream> st; HookBuf msg; std::ostream mos; Stream* borrowed = nullptr;
  Subject() : mos(&msg) { }
  ~Subject() { msg.disarm(); Sut s; sheet.reset(); }
  void start(const S& main) { S e; sheet = compile(main, e); st.reset(new Stream); Sut s; sheet->set_output(*st->sink); sheet->set_error_output(mos); }
  Outcome run(const Node& n, const Spec& sp) {
    Outcome o; S dumped;
    std::unique_ptr<Stream> other; std::unique_ptr<DOMSink> ds;
    Stream* use = st.get();
    if(sp.sink == 2) { other.reset(new Stream); use = other.get(); }
    if(sp.sink == 3 && borrowed) use = borrowed;
    arm(*use, msg, mos, sp.flt);
    { Sut s; if(sp.sink == 1) { ds.reset(new DOMSink); sheet->set_output(*ds); } else sheet->set_output(*use->sink); }
    execute(o, *sheet, n, msg, mos);
    if(sp.sink == 1) { Sut s; Node r = ds->node(); { Shield sh; for(auto& e : DomDump<str>::of(r)) o.out += e + "\n"; } }
    else o.out = use->buf.data();
    use->os.exceptions(std::ios::goodbit); mos.exceptions(std::ios::goodbit); use->os.clear(); mos.clear(); use->buf.disarm(); msg.disarm();
    { Sut s; sheet->set_output(*st->sink); ds.reset(); } other.reset();
    return o;
  }
};

void split_files(bool always) { for(auto& f : files) if(always || chance(1, 3)) f.second.split = sim::choose_split(f.second.bytes.size()); }
struct Param { S name; int kind; S v; };
void set(Sheet& s, const Param& p) { Sut su; if(p.kind == 0) s.set_parameter(str(p.name), str(p.v)); else if(p.kind == 1) s.set_parameter(str(p.name), (double)p.v.size()); else s.set_parameter(str(p.name), p.v.size() % 2 == 0); }

void prepare() { files.clear(); sim::heap_choose_policy(); { Shield s; Arabica::SAX::InputSourceResolver::registerResolver("sim", open_file); } }
void show_files() { for(auto& f : files) note("file %s: %s", f.first.c_str(), quote(f.second.bytes, 6000).c_str()); }

void mutate(Document& d) {
  Shield sh0; Sut s; Node root = d.getDocumentElement(); std::vector<Node> els; std::vector<Node> q(1, root);
  while(!q.empty()) { Node n = q.back(); q.pop_back(); if(n.getNodeType() == Arabica::DOM::Node_base::ELEMENT_NODE) els.push_back(n); for(Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) q.push_back(c); }
  Element e = (Element)els[choose((uint32_t)els.size())];
  switch(choose(5)) {
    case 0: e.setAttribute("id", num(choose(4))); break;
    case 1: e.setAttribute("x", num(choose(4))); break;
    case 2: e.appendChild(d.createElement(S(1, (char)('a' + choose(3))))); break;
    case 3: if(e != root) e.getParentNode().removeChild(e); break;
    case 4: e.appendChild(d.createTextNode(num(choose(4)))); break;
  }
}
Node pick_node(Document& d, int k) { Sut s; Node n = d; if(k) n = d.getDocumentElement(); return n; }

void p16() {
  prepare();
  Gen g; S main = g.make("sim://host/s/"), second; bool two = coin();
  if(two) { Gen g2; second = g2.make("sim://host/z/"); }
  show_files();
  S err; uint64_t sh = 0; for(auto& f : files) sh = sh * 31 + sim::hash_str(f.second.bytes);
  { std::unique_ptr<Sheet> s = compile(main, err); if(!s) fail("compile", "a stylesheet was rejected: " + err); Sut u; s.reset(); }
  sim::sample(quote(files[main].bytes, 300)); sim::nontrivial();
  int nd = range(1, 3); std::vector<Document> docs; { Shield x; for(int i = 0; i < nd; ++i) { S xml = g.source(); note("document %d: %s", i, quote(xml, 1000).c_str()); docs.push_back(parse(xml)); sh = sh * 31 + sim::hash_str(xml); } }
  Subject a, b; a.start(main); if(two) b.start(second);
  std::vector<Param> params;
  if(chance(1, 6)) {                                  // memory: the same execution over and over
    Spec sp{ 0, (int)choose(2), Fault() }; if(chance(1, 3)) { sp.flt.f = IO_THROW; sp.flt.mask = true; sp.flt.at = choose(200); }
    size_t live[5]; for(int i = 0; i < 5; ++i) { { Node n = pick_node(docs[0], 0); a.run(n, sp); { Sut s; n = Node(); } } live[i] = sim::live_blocks(); }
    sim::probe("repeated for memory");
    if(live[2] > live[1] && live[3] > live[2] && live[4] > live[3]) fail("memory-grows", "each execution of the same stylesheet on the same document leaves more memory behind: " + num((int)live[1]) + ", " + num((int)live[2]) + ", " + num((int)live[3]) + ", " + num((int)live[4]) + " blocks\n" + sim::live_report());
    { Sut s; docs.clear(); } log("memory ok"); sim::shape(sh); return;
  }
  int n = range(2, 5); bool upset = false;
  for(int i = 0; i < n; ++i) {
    switch(choose(6)) {
      case 0: { Param p; p.name = "p" + num(choose(2)); p.kind = choose(3); p.v = S(choose(3), '1'); set(*a.sheet, p); params.push_back(p); note("set_parameter %s = %d:%s", p.name.c_str(), p.kind, p.v.c_str()); break; }
      case 1: { int d = choose(nd); mutate(docs[d]); note("document %d changed", d); sim::probe("document changed between executions"); break; }
      case 2: { int d = choose(nd); S xml = g.source(); { Sut s; docs[d] = Document(); } docs[d] = parse(xml); note("document %d replaced: %s", d, quote(xml, 1000).c_str()); break; }
    }
    Spec sp; sp.doc = choose(nd); sp.sink = choose(4); if(sp.sink == 3) sp.sink = 0; int root = chance(1, 4);
    if(chance(1, 3)) { sp.flt.f = (IoFail)(2 + choose(2)); sp.flt.at = choose(chance(1, 3) ? 2000 : 60); sp.flt.mask = coin(); sp.flt.which = chance(1, 4); }
    bool missing = chance(1, 5); for(auto& f : files) if(f.first.find("data.xml") != S::npos) f.second.missing = missing;
    bool fresh_first = coin(), nest = two && chance(1, 3); long hook_at = nest ? (long)choose(120) : -1;
    Node node = pick_node(docs[sp.doc], root);
    Outcome want, got, nested, nested_want; bool ran = false;
    auto fresh = [&]() { Subject r; r.start(main); for(auto& p : params) set(*r.sheet, p); want = r.run(node, sp); };
    if(fresh_first) fresh();
    Spec sb; sb.doc = choose(nd); sb.sink = 0; Node nn = pick_node(docs[sb.doc], 0);
    if(nest) { a.st->buf.ran = false; a.st->buf.hook_at = hook_at; a.st->buf.hook = [&]() { sim::probe("nested execution"); nested = b.run(nn, sb); ran = true; }; }
    if(two && !nest && coin()) {                        // another stylesheet writes to this one's sink first
      Spec sc; sc.doc = choose(nd); sc.sink = 3; if(chance(1, 3)) { sc.flt.f = (IoFail)(2 + choose(2)); sc.flt.at = choose(chance(1, 3) ? 2000 : 60); sc.flt.mask = coin(); sc.flt.which = chance(1, 4); }
      Node m = pick_node(docs[sc.doc], 0); b.borrowed = a.st.get(); Outcome o = b.run(m, sc), w; b.borrowed = nullptr; sim::probe("another stylesheet used the sink");
      { Subject r; r.start(second); w = r.run(m, sc); }
      if(o.all() != w.all()) fail("shared-sink", "an execution to a sink another stylesheet has used differs from a fresh one's\nfresh: " + w.all() + "\nthis: " + o.all());
      note("the other stylesheet wrote to the sink: %s", o.all().c_str()); { Sut s; m = Node(); }
    }
    got = a.run(node, sp);
    a.st->buf.hook_at = -1;
    if(!fresh_first) fresh();
    sim::result("execution", got.all());
    note("execution %d: document %d, sink %d, fault %d at %zu of %s%s%s -> %s", i, sp.doc, sp.sink, (int)sp.flt.f, sp.flt.at, sp.flt.which ? "messages" : "output", sp.flt.mask ? ", throwing stream" : "", missing ? ", document() missing" : "", got.all().c_str());
    if(want.all() != got.all()) fail("execution", "execution " + num(i) + " on a used stylesheet differs from a fresh one's\nfresh: " + want.all() + "\nused: " + got.all());
    if(two && !ran && chance(1, 3)) { nested = b.run(nn, sb); ran = true; }
    if(ran) { Subject r; r.start(second); nested_want = r.run(nn, sb); if(nested.all() != nested_want.all()) fail("other-stylesheet", "an execution of another stylesheet " + S(nest ? "in the middle of one" : "in between") + " differs from a fresh one's\nfresh: " + nested_want.all() + "\nthis: " + nested.all()); }
    if(got.how) { upset = true; sim::probe(got.how == 1 ? "aborted: error" : got.how == 3 ? "aborted: stream" : "aborted: DOM"); if(got.what.find("terminated") != S::npos) sim::probe("aborted: terminate"); }
    sh = sh * 31 + sp.doc * 7 + sp.sink + (sp.flt.f ? sp.flt.at * 64 + sp.flt.which : 0) + missing;
    log("%d %zu %zu", got.how, got.out.size(), got.msg.size());
    { Sut s; node = Node(); nn = Node(); }
  }
  (void)upset; { Sut s; docs.clear(); } sim::shape(sh);
}

// ---- P17 --------------------------------------------------------------------------------------------
S behave(Sheet& s, std::vector<Document>& docs) {
  S r; Stream st; HookBuf msg; std::ostream mos(&msg);
  { Sut u; s.set_output(*st.sink); s.set_error_output(mos); }
  for(auto& d : docs) { st.buf.clear(); msg.clear(); Outcome o; Node n = pick_node(d, 0); execute(o, s, n, msg, mos); o.out = st.buf.data(); r += o.all() + "\n"; { Sut u; n = Node(); } }
  return r;
}
void whole(Sheet& s, int marks) {                        // every file's last template is there
  Stream st; HookBuf msg; std::ostream mos(&msg); { Sut u; s.set_output(*st.sink); s.set_error_output(mos); }
  Document d = parse("<marks/>"); Outcome o; Node n = pick_node(d, 1); execute(o, s, n, msg, mos); o.out = st.buf.data();
  for(int i = 0; !o.how && i < marks; ++i) if(o.out.find("[mark " + num(i) + "]") == S::npos) fail("partly-compiled", "the end of file " + num(i) + " is missing from the stylesheet: " + o.all());
  Sut u; n = Node(); d = Document();
}
void p17() {
  prepare();
  Gen g; S main = g.make("sim://host/s/"); 
  S xml = g.source(); std::vector<Document> docs; docs.push_back(parse(xml));
  show_files(); note("document: %s", quote(xml, 800).c_str()); sim::sample(quote(files[main].bytes, 300)); sim::nontrivial();
  uint64_t sh = 0; for(auto& f : files) sh = sh * 31 + sim::hash_str(f.second.bytes);
  S err, want; { std::unique_ptr<Sheet> s = compile(main, err); if(!s) fail("compile", "a stylesheet was rejected: " + err); want = behave(*s, docs); whole(*s, g.marks); Sut u; s.reset(); }
  if(chance(1, 2)) {                                   // including is the same as writing it in place
    files["sim://host/s/flat.xsl"].bytes = g.flat(main, true); sim::probe("compared with the stylesheet in one piece"); note("in one piece: %s", quote(files["sim://host/s/flat.xsl"].bytes, 6000).c_str());
    std::unique_ptr<Sheet> s = compile("sim://host/s/flat.xsl", err); if(!s) fail("compile", "a stylesheet was rejected: " + err); sim::expect_eq("behaviour", behave(*s, docs), want, "stylesheet with includes, against the same in one piece"); Sut u; s.reset(); files.erase("sim://host/s/flat.xsl");
  }
  std::map<S, File> intact = files;
  std::unique_ptr<Compiler> c; { Sut s; c.reset(new Compiler); }
  int rounds = range(1, 4); size_t live[8]; bool memory = chance(1, 5); if(memory) { rounds = 5; sim::probe("repeated for memory"); }
  int kind = 0; size_t pos = 0; S victim; bool mask = false; S bad;
  for(int i = 0; i < rounds; ++i) {
    files = intact; split_files(i > 0 || coin());
    for(auto& f : files) for(auto x : f.second.split.sizes) sh = sh * 31 + x;
    bool must_fail = false;
    if(!memory || i == 0) {
      kind = memory ? 0 : choose(8); std::vector<S> xs; for(auto& f : files) if(f.first.find(".xsl") != S::npos) xs.push_back(f.first);
      victim = sim::pick(xs); pos = choose(files[victim].bytes.size()); mask = coin();
      static const std::vector<S> bads = { "<xsl:nonsense/>", "<xsl:template/>", "<xsl:template match=\"a[\"/>", "<xsl:template match=\"a\"><xsl:value-of/></xsl:template>", "<xsl:template match=\"a\"><xsl:value-of select=\"$\"/></xsl:template>", "<xsl:template match=\"a\"><xsl:if test=\"1\" bogus=\"2\"/></xsl:template>",
        "<xsl:variable name=\"q:q\"/>", "<xsl:include href=\"nowhere.xsl\"/>", "<xsl:include href=\"sim://host/s/main.xsl\"/>", "<xsl:import href=\"sim://host/s/main.xsl\"/>", "<xsl:import href=\"nowhere.xsl\"/>", "<xsl:import href=\"sim://host/s/good.xsl\"><x/></xsl:import>", "<xsl:import href=\"sim://host/s/good.xsl\">t</xsl:import>", "<xsl:include href=\"sim://host/s/good.xsl\">t</xsl:include>", "<xsl:include/>", "<xsl:import/>", "text", "<xsl:template match=\"a\" priority=\"high\"/>", "<xsl:template match=\"a\"><xsl:call-template/></xsl:template>", "<xsl:strip-space elements=\"a\"/>", "<noNamespace/>", "<xsl:template match=\"a\"><xsl:choose/></xsl:template>",
        "<xsl:include href=\"sim://host/s/good.xsl\"><x/></xsl:include>", "<xsl:template name=\"t9\"/><xsl:template name=\"t9\"/>", "<xsl:template name=\"t9\" match=\"zz\"/><xsl:template name=\"t9\" match=\"zz\"/>", "<xsl:template match=\"a\"><xsl:sort/></xsl:template>", "<xsl:key name=\"k\" match=\"$v\" use=\"@id\"/>", "<xsl:template match=\"a\"><xsl:value-of select=\"nosuch:f()\"/></xsl:template>", "<xsl:template match=\"a\"><e x=\"{\"/></xsl:template>", "<a:b/>", "&undefined;", "<xsl:template match=\"a\"></xsl:temp>" };
      bad = sim::pick(bads);
    }
    files["sim://host/s/good.xsl"].bytes = g.open() + "</xsl:stylesheet>";
    File& v = files[victim]; size_t end = v.bytes.rfind("</xsl:stylesheet>");
    switch(kind) {
      case 0: case 1: break;
      case 2: v.missing = true; must_fail = true; break;
      case 3: v.f = IO_EOF; v.at = pos; must_fail = pos < end + 17; break;
      case 4: v.f = IO_THROW; v.at = pos; v.mask = mask; must_fail = true; break;
      case 5: { static const char junk[] = { '<', '&', '\1', '\xFF' }; size_t q = pos; char was = v.bytes[q]; v.bytes[q] = junk[1 + choose(3)]; must_fail = v.bytes[q] != was; break; }
      case 6: case 7: v.bytes.insert(end, bad + "\n"); must_fail = true; break;
    }
    S e; std::unique_ptr<Sheet> s; S how;
    { Cerr ce; try { s = compile(main, e, c.get()); } catch(std::exception& ex) { fail("exception", S("compile() let an exception out: ") + ex.what()); } }
    sim::result("compilation", s ? "a stylesheet" : e);
    note("compilation %d: kind %d at %zu of %s%s -> %s", i, kind, pos, victim.c_str(), kind >= 6 ? (": " + bad).c_str() : "", s ? "a stylesheet" : e.c_str());
    if(kind > 1) sim::fault(kind == 2 ? "file-missing" : kind == 3 ? "file-cut" : kind == 4 ? "file-read-error" : "file-malformed");
    if(!s && e.empty()) fail("no-reason", "compile() returned no stylesheet and an empty error");
    if(s && !e.empty()) fail("reason-kept", "compile() returned a stylesheet and the error " + e);
    if(must_fail && s) fail("partly-compiled", "a broken stylesheet compiled: kind " + num(kind) + " at " + num((int)pos) + " of " + victim + (kind >= 6 ? ": " + bad : S()));
    if(!must_fail && !s) fail("rejected", "an intact stylesheet was rejected: " + e);
    if(s) { File* d = nullptr; for(auto& f : files) if(f.first.find("data.xml") != S::npos) { d = &f.second; d->f = IO_NONE; d->missing = false; } S got = behave(*s, docs); sim::expect_eq("behaviour", want, got, "stylesheet compiled from split or repeated delivery"); whole(*s, g.marks); }
    { Sut u; s.reset(); } { S().swap(e); }
    live[i] = sim::live_blocks();
    sh = sh * 31 + kind * 1000003 + (kind > 1 ? pos + sim::hash_str(victim) : 0); log("%d %d", kind, !must_fail);
  }
  if(memory && live[2] > live[1] && live[3] > live[2] && live[4] > live[3]) fail("memory-grows", "each compilation leaves more memory behind: " + num((int)live[1]) + ", " + num((int)live[2]) + ", " + num((int)live[3]) + ", " + num((int)live[4]) + " blocks (kind " + num(kind) + ")\n" + sim::live_report());
  { Sut s; c.reset(); docs.clear(); }
  sim::shape(sh);
}
void warm() {
  prepare(); sim::heap_policy(sim::HeapPolicy{ true, 0, 0 });
  files["sim://host/w/main.xsl"].bytes = "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'><xsl:template match='/'><o a='{1}'><xsl:value-of select='string(1)'/></o></xsl:template></xsl:stylesheet>";
  S e; std::unique_ptr<Sheet> s = compile("sim://host/w/main.xsl", e); Document d = parse("<a/>"); std::vector<Document> v(1, d); if(s) behave(*s, v);
  { Sut u; s.reset(); d = Document(); v.clear(); }
}
sim::Reg r16("P16", p16, warm, 6000000000ull);
sim::Reg r17("P17", p17, warm, 6000000000ull);
}
