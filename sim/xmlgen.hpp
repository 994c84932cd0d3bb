// Generated XML documents with the SAX events they determine.
#ifndef VERIF_SIM_XMLGEN_HPP
#define VERIF_SIM_XMLGEN_HPP
#include "core.hpp"
#include <map>
#include <memory>
#include <algorithm>

namespace xmlgen {
using sim::choose; using sim::chance; using sim::coin; using sim::range;
typedef std::string S;
typedef std::vector<S> Events;

enum Backend { EXPAT, LIBXML2, XERCES };
inline const char* backend_name(int b) { return b == EXPAT ? "expat" : b == LIBXML2 ? "libxml2" : "xerces"; }

struct Opt {
  int backend = EXPAT;
  bool dtd = true, encodings = true, entities = true, nonbmp = true, default_attrs = true, big = true, latin1_safe = false;
  bool blank_text = true;     // may contain whitespace-only text
  bool pi_comment_outside = true;
  bool cdata = true;
  bool ns = true;
  bool align = true;          // may pad so that a token straddles an internal buffer boundary
  int max_depth = 5, budget = 40;
};

struct Attr { S prefix, local, value; bool special; };           // value is what the application should see
struct NsDecl { S prefix, uri; };
struct Node;
typedef std::shared_ptr<Node> NodeP;
struct Node {
  enum K { ELEM, TEXT, CDATA, COMMENT, PI, ENTREF } kind;
  S prefix, local, text, target;
  std::vector<NsDecl> ns;
  std::vector<Attr> attrs;
  std::vector<NodeP> kids;
  S qname() const { return prefix.empty() ? local : prefix + ":" + local; }
};
struct Decl {
  enum K { ELEMENT, ATTLIST, ENTITY, XENTITY, NOTATION, UNPARSED, COMMENT, PI, PENTITY } kind;
  S name, a, b, c, d; // meaning depends on kind
};
struct Doc {
  Opt opt;
  bool doctype = false; S dtname, dtpub, dtsys; bool subset = false;
  std::vector<Decl> decls;
  std::vector<NodeP> before, after; NodeP root;
  int encoding = 0;     // 0 none 1 utf-8 declared 2 iso-8859-1 3 utf-16le+bom 4 utf-16be+bom 5 utf-8+bom
  std::map<S, std::vector<NodeP>> entities;
  size_t pad = 0;       // length of a padding comment after the XML declaration
  // results of serialise()
  S text; size_t root_begin = 0, root_end = 0;
  std::vector<size_t> content_points;   // offsets in text where character data may legally be inserted (inside root)
  std::vector<size_t> tag_points;       // offsets inside start tags just before '>' or '/>'
  std::vector<size_t> name_points;      // offsets of end tag names
  uint64_t style = 0;
};

// ------------------------------------------------------------------ characters
inline S utf8(uint32_t c) {
  S s;
  if(c < 0x80) s += (char)c;
  else if(c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
  else if(c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
  return s;
}
inline std::vector<uint32_t> codepoints(const S& s) {
  std::vector<uint32_t> r;
  for(size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    uint32_t v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
    for(int k = 1; k < n && i + k < s.size(); ++k) v = v << 6 | (s[i + k] & 63);
    r.push_back(v); i += n;
  }
  return r;
}
inline S encode(const S& text, int enc) {
  S r;
  switch(enc) {
    case 5: return S("\xef\xbb\xbf") + text;
    case 2: for(uint32_t c : codepoints(text)) r += (char)c; return r;
    case 3: case 4: {
      std::vector<uint32_t> cp = codepoints(text);
      cp.insert(cp.begin(), 0xfeff);
      for(uint32_t c : cp) {
        uint16_t u[2]; int n = 1; u[0] = (uint16_t)c;
        if(c >= 0x10000) { c -= 0x10000; u[0] = (uint16_t)(0xd800 | c >> 10); u[1] = (uint16_t)(0xdc00 | (c & 0x3ff)); n = 2; }
        for(int i = 0; i != n; ++i) { if(enc == 3) { r += (char)(u[i] & 255); r += (char)(u[i] >> 8); } else { r += (char)(u[i] >> 8); r += (char)(u[i] & 255); } }
      }
      return r;
    }
  }
  return text;
}

// ------------------------------------------------------------------ generation
struct Gen {
  Opt o;
  std::vector<std::map<S, S>> scope;
  int budget;
  std::vector<S> ents;
  explicit Gen(const Opt& opt) : o(opt), budget(opt.budget) { scope.push_back(std::map<S, S>()); }

  S name() {
    static const std::vector<S> n = { "a", "b", "c", "item", "data", "row", "x-y", "n.1", "_u", "section", "VeryLongElementNameThatGoesOnAndOn" };
    if(!o.latin1_safe && chance(1, 24)) return coin() ? "\xc3\xa9l" : "\xe6\x97\xa5\xe6\x9c\xac";
    return n[choose(n.size())];
  }
  S aname() {
    static const std::vector<S> n = { "id", "k", "val", "href", "w", "alpha", "beta" };
    return n[choose(n.size())];
  }
  S uri() {
    static const std::vector<S> n = { "urn:one", "urn:two", "http://example.com/ns", "urn:x:y:z", "u" };
    return n[choose(n.size())];
  }
  S word() {
    static const std::vector<S> w = { "x", "ab", "text", " ", "\n", "  ", "lorem ipsum", "<", ">", "&", "\"", "'", "1 < 2 && 3 > 2", "]]", "]]>", "\t", "tail", "0123456789" };
    uint32_t k = choose(22);
    if(k < 18) return w[k];
    if(k == 18) return "\xc3\xbf";
    if(k == 19) return o.latin1_safe ? "\xc2\xa3" : "\xe2\x82\xac";
    if(k == 20) return o.latin1_safe || !o.nonbmp ? "\xc3\xa9" : "\xf0\x9f\x98\x80";
    return "\r";
  }
  S text(bool allow_big) {
    S s; int n = 1 + sim::small(8);
    for(int i = 0; i != n; ++i) s += word();
    if(allow_big && o.big && chance(1, 30)) {
      int reps = 1 + (int)choose(300); S b;
      for(int i = 0; i != reps; ++i) { b += "chunk of text "; b += std::to_string(i); b += word(); }
      s += b;
    }
    return s;
  }
  static bool blank(const S& s) { for(char c : s) if(c != ' ' && c != '\t' && c != '\n' && c != '\r') return false; return true; }

  NodeP misc() {
    NodeP n = std::make_shared<Node>();
    if(coin()) { n->kind = Node::COMMENT; n->text = comment_text(); }
    else { n->kind = Node::PI; n->target = coin() ? "target" : "xml-stylesheet"; n->text = pi_text(); }
    return n;
  }
  S comment_text() {
    static const std::vector<S> w = { "", " a comment ", "<not><markup>", "&amp;", " - dash - ", "\nnewline\n", "x" };
    S s = w[choose(w.size())];
    if(o.big && chance(1, 40)) s += S(1 + choose(12000), 'c');
    return s;
  }
  S pi_text() {
    static const std::vector<S> w = { "", "data", "a='b' c=\"d\"", "?>"[0] == '?' ? "? still" : "", "<&>", "two  words " };
    return w[choose(w.size())];
  }
  S lookup(const S& p) {
    for(size_t i = scope.size(); i-- > 0;) { auto f = scope[i].find(p); if(f != scope[i].end()) return f->second; }
    return "";
  }
  S pick_prefix() {           // a prefix in scope with a non-empty URI, or ""
    std::vector<S> c(1, "");
    std::map<S, S> all;
    for(auto& m : scope) for(auto& x : m) all[x.first] = x.second;
    for(auto& x : all) if(!x.first.empty() && !x.second.empty()) c.push_back(x.first);
    return c[choose(c.size())];
  }

  NodeP element(int depth) {
    NodeP n = std::make_shared<Node>();
    n->kind = Node::ELEM;
    --budget;
    scope.push_back(std::map<S, S>());
    if(o.ns && chance(1, 3)) {
      static const std::vector<S> ps = { "p", "q", "", "ns1", "p" };
      int k = 1 + (int)choose(3);
      for(int i = 0; i != k; ++i) {
        S p = ps[choose(ps.size())];
        if(scope.back().count(p)) continue;
        NsDecl d; d.prefix = p; d.uri = (p.empty() && chance(1, 4)) ? "" : uri();
        scope.back()[p] = d.uri;
        n->ns.push_back(d);
      }
    }
    n->prefix = o.ns ? pick_prefix() : "";
    n->local = name();
    int na = chance(1, 2) ? (int)choose(4) : 0;
    std::map<S, int> seen, seenq;
    for(int i = 0; i != na; ++i) {
      Attr a; a.special = false;
      if(o.ns && chance(1, 12)) { a.prefix = "xml"; a.local = coin() ? "space" : "lang"; a.value = a.local == "space" ? "preserve" : "en"; }
      else { a.prefix = o.ns && coin() ? pick_prefix() : ""; a.local = aname(); a.value = text(false); }
      S key = (a.prefix.empty() ? "" : a.prefix == "xml" ? "xml" : "{" + lookup(a.prefix) + "}") + a.local;
      S q = a.prefix + ":" + a.local;
      if(seen[key]++ || seenq[q]++) continue;
      n->attrs.push_back(a);
    }
    content(n->kids, depth);
    scope.pop_back();
    return n;
  }
  void content(std::vector<NodeP>& kids, int depth) {
    int nk = depth >= o.max_depth ? (int)choose(2) : sim::small(6);
    for(int i = 0; i != nk && budget > 0; ++i) {
      uint32_t k = choose(12);
      if(k < 4 && depth < o.max_depth) { kids.push_back(element(depth + 1)); continue; }
      NodeP c = std::make_shared<Node>();
      --budget;
      if(k < 8) { c->kind = Node::TEXT; c->text = text(true); if(!o.blank_text) c->text = "t" + c->text + "t"; }
      else if(k == 8 && o.cdata) { c->kind = Node::CDATA; c->text = cdata_text(); }
      else if(k == 9 && !ents.empty()) { c->kind = Node::ENTREF; c->text = ents[choose(ents.size())]; }
      else c = misc();
      kids.push_back(c);
    }
  }
  S cdata_text() {
    static const std::vector<S> w = { "x", "<a>&b;</a>", "]]", "line\nline", "", " ", "]>", "\xc3\xa9", "data" };
    S s; int n = (int)choose(4);
    for(int i = 0; i != n; ++i) s += w[choose(w.size())];
    for(size_t p; (p = s.find("]]>")) != S::npos;) s.erase(p, 1);
    if(s.empty()) s = "c";
    if(o.big && chance(1, 40)) s += S(1 + choose(12000), 'd');
    return s;
  }

  void dtd(Doc& d) {
    d.doctype = true; d.dtname = "doc";
    d.subset = true;
    int n = (int)choose(6);
    std::map<S, int> seen_el;
    static const std::vector<S> models = { "ANY", "EMPTY", "(#PCDATA)", "(a,b)", "(a|b)*", "(#PCDATA|a|b)*", "(a?,b*,c+)", "(a)", "((a|b),c)" };
    for(int i = 0; i != n; ++i) {
      Decl x; S nm = "k" + std::to_string(i);
      switch(choose(9)) {
        case 0: x.kind = Decl::ELEMENT; x.name = nm; x.a = models[choose(models.size())]; break;
        case 1: { x.kind = Decl::ATTLIST; x.name = nm; x.a = "at";
                  static const std::vector<S> ty = { "CDATA", "NMTOKEN", "(one|two)", "ID" };
                  x.b = ty[choose(ty.size())];
                  uint32_t k = x.b == "ID" ? choose(2) : choose(4);
                  x.c = k == 0 ? "#IMPLIED" : k == 1 ? "#REQUIRED" : k == 2 ? "#FIXED" : "";
                  if(k >= 2) x.d = "one";
                  if(k >= 2 && x.b == "CDATA") { static const std::vector<S> dv = { "one", "it's", "say \"so\"", "a&b", "x<y>z", "50% off", "" }; x.d = dv[choose(dv.size())]; }
                  break; }
        case 2: case 3: {
                  x.kind = Decl::ENTITY; x.name = "e" + std::to_string(i);
                  std::vector<NodeP> c;
                  NodeP t = std::make_shared<Node>(); t->kind = Node::TEXT; t->text = o.backend == LIBXML2 ? "entity text" : S("ent") + text(false); c.push_back(t);
                  if(o.backend != LIBXML2 && coin()) {
                    NodeP e = std::make_shared<Node>(); e->kind = Node::ELEM; e->local = "in";
                    NodeP t2 = std::make_shared<Node>(); t2->kind = Node::TEXT; t2->text = "inner"; e->kids.push_back(t2); c.push_back(e);
                  }
                  if(o.entities) { d.entities[x.name] = c; ents.push_back(x.name); }
                  else continue;
                  break; }
        case 4: x.kind = Decl::NOTATION; x.name = nm; x.a = coin() ? "pub" + nm : ""; x.b = x.a.empty() || coin() ? "sys" + nm : ""; break;
        case 5: { Decl nn; nn.kind = Decl::NOTATION; nn.name = "not" + nm; nn.b = "viewer"; d.decls.push_back(nn);
                  x.kind = Decl::UNPARSED; x.name = "u" + nm; x.a = coin() ? "pub" : ""; x.b = "pic.gif"; x.c = nn.name; break; }
        case 6: x.kind = Decl::COMMENT; x.a = comment_text(); break;
        case 7: x.kind = Decl::PI; x.name = "dtdpi"; x.a = "data"; break;
        case 8: { x.kind = Decl::PENTITY; x.name = "p" + std::to_string(i);
                  if(choose(3) == 2) { x.a = coin() ? "pub" : ""; x.b = coin() ? "http://sim.test/pe" : "it's/\"pe\""; if(x.b[0] == 'i') x.b = o.backend != EXPAT || coin() ? "it's" : "a\"b"; }
                  else { static const std::vector<S> pv = { "some text", "", "<!--c-->", "&amp;", "a \"b\"", "100%", "'x'", "a\rb", "&e0;" }; x.c = pv[choose(pv.size())]; }
                  break; }
      }
      d.decls.push_back(x);
    }
  }

  Doc doc() {
    Doc d;
    if(o.encodings) {
      uint32_t k = choose(10);
      d.encoding = k < 4 ? 0 : k < 6 ? 1 : k == 6 ? 2 : k == 7 ? 3 : k == 8 ? 4 : 5;
      if(d.encoding == 2) { o.latin1_safe = true; }
    }
    d.style = choose(1u << 16);
    if(o.dtd && chance(1, 3)) dtd(d);
    if(o.pi_comment_outside) { int n = chance(1, 3) ? (int)choose(3) : 0; for(int i = 0; i != n; ++i) d.before.push_back(misc()); }
    d.root = element(0);
    if(d.doctype) { d.dtname = d.root->qname(); }
    if(o.pi_comment_outside) { int n = chance(1, 3) ? (int)choose(3) : 0; for(int i = 0; i != n; ++i) d.after.push_back(misc()); }
    d.opt = o;
    return d;
  }
};

// ------------------------------------------------------------------ serialisation with varied syntax
struct Ser {
  Doc& d; S out; uint64_t r; std::vector<size_t>* cp;
  explicit Ser(Doc& doc) : d(doc), r(doc.style * 0x9e3779b97f4a7c15ull + 77), cp(nullptr) { }
  uint32_t v(uint32_t n) { r = r * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(r >> 33) % n; }   // syntax variation derived from one choice
  S ws(bool must) { static const char* w[] = { " ", "\n", "\t", "  ", " \n " }; if(!must && v(3)) return ""; return v(3) ? " " : w[v(5)]; }
  S chars(const S& s, bool attr, char q) {
    S o;
    for(size_t i = 0; i != s.size(); ++i) {
      char c = s[i];
      switch(c) {
        case '<': o += v(2) ? "&lt;" : "&#60;"; break;
        case '&': o += v(2) ? "&amp;" : "&#x26;"; break;
        case '>': if(!attr && (o.empty() ? (out.empty() || out.back() == ']') : o.back() == ']')) o += "&gt;"; else o += v(2) ? ">" : "&gt;"; break;
        case '"': o += (attr && q == '"') ? (v(2) ? "&quot;" : "&#34;") : (v(3) ? "\"" : "&quot;"); break;
        case '\'': o += (attr && q == '\'') ? (v(2) ? "&apos;" : "&#39;") : (v(3) ? "'" : "&apos;"); break;
        case '\r': o += "&#13;"; break;
        case '\n': if(attr) o += "&#10;"; else o += v(6) ? "\n" : "\r\n"; break;
        case '\t': o += attr ? "&#9;" : "\t"; break;
        default: o += c;
      }
    }
    return o;
  }
  void emit(const NodeP& n, bool inroot) {
    switch(n->kind) {
      case Node::TEXT:
        if(inroot && cp) cp->push_back(out.size());
        out += chars(n->text, false, 0);
        break;
      case Node::CDATA: out += "<![CDATA[" + n->text + "]]>"; break;
      case Node::COMMENT: out += "<!--" + n->text + "-->"; break;
      case Node::PI: out += "<?" + n->target + (n->text.empty() ? "" : " " + n->text) + "?>"; break;
      case Node::ENTREF: out += "&" + n->text + ";"; break;
      case Node::ELEM: {
        out += "<" + n->qname();
        size_t total = n->ns.size() + n->attrs.size(), i = 0, j = 0;
        for(size_t k = 0; k != total; ++k) {
          bool ns = i < n->ns.size() && (j == n->attrs.size() || v(2));
          char q = v(3) ? '"' : '\'';
          out += ws(true);
          if(ns) { out += n->ns[i].prefix.empty() ? "xmlns" : "xmlns:" + n->ns[i].prefix; out += ws(false) + "=" + ws(false) + q + chars(n->ns[i].uri, true, q) + q; ++i; }
          else { const Attr& a = n->attrs[j]; out += a.prefix.empty() ? a.local : a.prefix + ":" + a.local; out += ws(false) + "=" + ws(false) + q + chars(a.value, true, q) + q; ++j; }
        }
        out += ws(false);
        if(inroot) d.tag_points.push_back(out.size());
        if(n->kids.empty() && v(2)) { out += "/>"; break; }
        out += ">";
        if(inroot && cp) cp->push_back(out.size());
        for(auto& k : n->kids) { emit(k, inroot); if(inroot && cp && k->kind != Node::TEXT) cp->push_back(out.size()); }
        out += "</";
        if(inroot) d.name_points.push_back(out.size());
        out += n->qname() + ws(false) + ">";
        break;
      }
    }
  }
  static S q(const S& s) { return "\"" + s + "\""; }
  void decl(const Decl& x) {
    switch(x.kind) {
      case Decl::ELEMENT: out += "<!ELEMENT " + x.name + " " + x.a + ">"; break;
      case Decl::ATTLIST: out += "<!ATTLIST " + x.name + " " + x.a + " " + x.b + " " + x.c + (x.c == "#IMPLIED" || x.c == "#REQUIRED" ? "" : (x.c.empty() ? "" : " ") + q(quoted(x.d))) + ">"; break;
      case Decl::ENTITY: { out += "<!ENTITY " + x.name + " \"" + entity_literal(x.name) + "\">"; break; }
      case Decl::XENTITY: out += "<!ENTITY " + x.name + (x.a.empty() ? " SYSTEM " : " PUBLIC " + q(x.a) + " ") + q(x.b) + ">"; break;
      case Decl::NOTATION: out += "<!NOTATION " + x.name + (x.a.empty() ? " SYSTEM " + q(x.b) : " PUBLIC " + q(x.a) + (x.b.empty() ? "" : " " + q(x.b))) + ">"; break;
      case Decl::UNPARSED: out += "<!ENTITY " + x.name + (x.a.empty() ? " SYSTEM " : " PUBLIC " + q(x.a) + " ") + q(x.b) + " NDATA " + x.c + ">"; break;
      case Decl::COMMENT: out += "<!--" + x.a + "-->"; break;
      case Decl::PENTITY: out += "<!ENTITY % " + x.name + (!x.b.empty() ? (x.a.empty() ? " SYSTEM " : " PUBLIC " + q(x.a) + " ") + (x.b.find('"') == S::npos ? q(x.b) : "'" + x.b + "'") : " \"" + literal(x.c) + "\"") + ">"; break;
      case Decl::PI: out += "<?" + x.name + " " + x.a + "?>"; break;
    }
    out += v(2) ? "\n" : " ";
  }
  static S quoted(const S& v) { S o; for(char c : v) { if(c == '"') o += "&quot;"; else if(c == '<') o += "&lt;"; else if(c == '&') o += "&#38;"; else o += c; } return o; }
  // literal inside double quotes: markup kept, '&' '%' '"' escaped as character references in the literal
  S entity_literal(const S& name) { return literal(entity_replacement(name)); }
  static S literal(const S& repl) {
    S o;
    for(char c : repl) { if(c == '"') o += "&#34;"; else if(c == '%') o += "&#37;"; else if(c == '&') o += "&#38;"; else if(c == '\r') o += "&#13;"; else o += c; }
    return o;
  }
  static S simple_chars(const S& s) { S o; for(char c : s) { if(c == '<') o += "&lt;"; else if(c == '&') o += "&amp;"; else if(c == '>') o += "&gt;"; else if(c == '\r') o += "&#13;"; else o += c; } return o; }
  static void simple(const NodeP& n, S& o) {
    if(n->kind == Node::TEXT) o += simple_chars(n->text);
    else if(n->kind == Node::COMMENT) o += "<!--" + n->text + "-->";
    else if(n->kind == Node::ENTREF) o += "&" + n->text + ";";
    else if(n->kind == Node::ELEM) { o += "<" + n->qname(); for(auto& a : n->attrs) o += " " + a.local + "='" + a.value + "'"; o += ">"; for(auto& k : n->kids) simple(k, o); o += "</" + n->qname() + ">"; }
  }
  S entity_replacement(const S& name) { S o; for(auto& n : d.entities[name]) simple(n, o); return o; }

  void run() {
    static const char* encs[] = { "", "UTF-8", "ISO-8859-1", "UTF-16", "UTF-16", "UTF-8" };
    d.tag_points.clear(); d.content_points.clear(); d.name_points.clear();
    cp = &d.content_points;
    bool xd = d.encoding == 2 || d.encoding == 1 || v(2);
    if(xd) { out += "<?xml version=\"1.0\""; if(d.encoding == 1 || d.encoding == 2 || (d.encoding >= 3 && v(2))) out += S(" encoding=\"") + encs[d.encoding] + "\""; out += "?>"; }
    if(d.pad) out += "<!--" + S(d.pad, 'P') + "-->";
    if(xd && v(2)) out += "\n";
    bool dt_first = v(2);
    if(d.doctype && dt_first) dtd();
    for(auto& n : d.before) { emit(n, false); if(v(2)) out += "\n"; }
    if(d.doctype && !dt_first) dtd();
    d.root_begin = out.size();
    emit(d.root, true);
    d.root_end = out.size();
    for(auto& n : d.after) { if(v(2)) out += "\n"; emit(n, false); }
    if(v(2)) out += "\n";
    d.text = out;
    dt_first_ = dt_first;
  }
  bool dt_first_ = false;
  void dtd() {
    out += "<!DOCTYPE " + d.dtname;
    if(!d.dtsys.empty()) out += d.dtpub.empty() ? " SYSTEM " + q(d.dtsys) : " PUBLIC " + q(d.dtpub) + " " + q(d.dtsys);
    if(d.subset) { out += " ["; for(auto& x : d.decls) decl(x); out += "]"; }
    out += ">";
  }
};
inline bool serialise(Doc& d) { Ser s(d); s.run(); return s.dt_first_; }

// ------------------------------------------------------------------ expected events
struct Set { int backend; bool namespaces; bool prefixes; };
// hook for external entities: fills in events of the reference
struct Exp {
  const Doc& d; Set st; Events ev; S pending;
  std::vector<std::map<S, S>> scope;
  Exp(const Doc& doc, const Set& s) : d(doc), st(s) { scope.push_back({ { "xml", "http://www.w3.org/XML/1998/namespace" } }); }
  void flush() { if(!pending.empty()) { ev.push_back("T " + pending); pending.clear(); } }
  void add(const S& e) { flush(); ev.push_back(e); }
  S lookup(const S& p) { for(size_t i = scope.size(); i-- > 0;) { auto f = scope[i].find(p); if(f != scope[i].end()) return f->second; } return ""; }
  static S lines(const S& s) { return s; }
  void node(const NodeP& n) {
    switch(n->kind) {
      case Node::TEXT: pending += n->text; break;
      case Node::CDATA: add("CD+"); pending += n->text; add("CD-"); break;
      case Node::COMMENT: add("C " + n->text); break;
      case Node::PI: add("P " + n->target + " " + n->text); break;
      case Node::ENTREF: { auto e = d.entities.find(n->text); if(e != d.entities.end()) for(auto& k : e->second) node(k); break; }
      case Node::ELEM: {
        flush();
        scope.push_back(std::map<S, S>());
        std::vector<S> pm, at, pe;
        for(auto& x : n->ns) {
          scope.back()[x.prefix] = x.uri;
          if(st.namespaces) pm.push_back("PM+ " + x.prefix + "=" + x.uri), pe.push_back("PM- " + x.prefix);
          if(!st.namespaces || st.prefixes) at.push_back("xmlns" + (x.prefix.empty() ? "" : ":" + x.prefix) + "=" + x.uri);
        }
        for(auto& a : n->attrs) {
          S q = a.prefix.empty() ? a.local : a.prefix + ":" + a.local;
          if(st.namespaces) at.push_back("{" + (a.prefix.empty() ? S() : lookup(a.prefix)) + "}" + a.local + " " + q + "=" + a.value);
          else at.push_back("{} " + q + "=" + a.value);
        }
        std::sort(pm.begin(), pm.end()); std::sort(pe.begin(), pe.end()); std::sort(at.begin(), at.end());
        for(auto& x : pm) ev.push_back(x);
        S nm = st.namespaces ? "{" + lookup(n->prefix) + "}" + n->local + " " + n->qname() : "{} " + n->qname();
        S e = "SE " + nm;
        for(auto& x : at) e += " [" + x + "]";
        ev.push_back(e);
        for(auto& k : n->kids) node(k);
        add("EE " + nm);
        for(auto& x : pe) ev.push_back(x);
        scope.pop_back();
        break;
      }
    }
  }
  void decl(const Decl& x, Doc& dd) {
    switch(x.kind) {
      case Decl::ELEMENT: add("ELD " + x.name + " " + x.a); break;
      case Decl::ATTLIST: add("ATD " + x.name + " " + x.a + " " + x.b + " " + (x.c.empty() ? "" : x.c) + " " + x.d); break;
      case Decl::ENTITY: { Ser s(dd); add("IED " + x.name + "=" + s.entity_replacement(x.name)); break; }
      case Decl::XENTITY: add("XED " + x.name + " " + x.a + " " + x.b); break;
      case Decl::NOTATION: add("ND " + x.name + " " + x.a + " " + x.b); break;
      case Decl::UNPARSED: add("UED " + x.name + " " + x.a + " " + x.b + " " + x.c); break;
      case Decl::COMMENT: add("C " + x.a); break;
      case Decl::PENTITY: if(x.b.empty()) add("IED %" + x.name + "=" + x.c); else add("XED %" + x.name + " " + x.a + " " + x.b); break;
      case Decl::PI: add("P " + x.name + " " + x.a); break;
    }
  }
  void dtd() {
    Doc& dd = const_cast<Doc&>(d);
    add("DTD+ " + d.dtname + " " + d.dtpub + " " + d.dtsys);
    for(auto& x : d.decls) decl(x, dd);
    add("DTD-");
  }
  void run(bool dt_first) {
    add("SD");
    if(d.pad) add("C " + S(d.pad, 'P'));
    if(d.doctype && dt_first) dtd();
    for(auto& n : d.before) node(n);
    if(d.doctype && !dt_first) dtd();
    node(d.root);
    for(auto& n : d.after) node(n);
    add("ED");
  }
};

// pads so that a chosen offset of the encoded document falls on (or next to) a multiple of a buffer size
inline void maybe_align(Doc& d, int backend) {
  static const int sizes[3][3] = { { 10240, 10240, 1024 }, { 4096, 4096, 512 }, { 49152, 16384, 4096 } };
  if(!d.opt.align || !chance(1, 3)) return;
  uint32_t B = sizes[backend][choose(3)];
  d.pad = 1;
  serialise(d);
  S bytes = encode(d.text, d.encoding);
  size_t per = d.encoding == 3 || d.encoding == 4 ? 2 : 1;
  uint32_t q = choose((uint32_t)bytes.size() + 1);
  int jitter = (int)choose(5) - 2;
  if(chance(1, 6)) { q = (uint32_t)bytes.size(); jitter = 0; }    // the whole document is an exact multiple
  int64_t need = (int64_t)B - (int64_t)(q % B) + jitter;
  if(need < 0) need += B;
  d.pad = 1 + (size_t)need / per;
  sim::probe("aligned-to-buffer");
}

inline S join(const Events& e) { S s; for(auto& x : e) { s += x; s += '\n'; } return s; }
} // namespace xmlgen
#endif
