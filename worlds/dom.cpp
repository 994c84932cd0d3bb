// P11, P12: clients share a few DOM documents and mutate them in an order the simulator picks; the reference model says what
// every call does or which exceptions it may throw.
#include "dom_model.hpp"
#include "dom_views.hpp"

using namespace dm;
namespace {
typedef Forest::Errs Errs;

const char* DTDDOC =
  "<!DOCTYPE r [<!ATTLIST e0 id ID #IMPLIED d0 CDATA 'dv'><!ATTLIST e1 id ID #IMPLIED d1 CDATA 'dw' d2 CDATA 'dx'>"
  "<!ENTITY ent 'x<e2>y<!--c--></e2><e0 a1=\"v\"/>z'><!ENTITY t 'txt'>]>"
  "<!--top--><r a0='1'><e0 id='i0'>one&ent;two</e0><e1 id='i1'>&t;</e1><p:a xmlns:p='u1' p:x='nsv'/></r><?pi data?>";

struct World {
  Forest f; Views* v = 0; int client = 0; std::string what;
  D::DOMImplementation<S> di;

  [[noreturn]] void die(const S& check, const S& msg) { sim::fail(check, what + ": " + msg); }
  // runs the real call; errs are the exceptions the model allows (empty: must succeed)
  template<class F> bool call(const Errs& errs, F fn) {
    int code = 0; S other;
    try { Sut s; fn(); } catch(const X& e) { code = e.code(); } catch(const std::exception& e) { Shield sh; other = e.what(); if(other.empty()) other = "exception"; }
    S es; for(int e : errs) es += (es.empty() ? "" : "/") + std::to_string(e);
    log("%s -> %d%s", what.c_str(), code, other.empty() ? "" : " other");
    if(!other.empty()) die("wrong-exception", "threw " + other);
    if(errs.empty() && code) die("unexpected-exception", "threw DOMException " + std::to_string(code) + " though nothing forbids the call");
    if(!errs.empty() && !code) die("missing-exception", "did not throw; the specification requires DOMException " + es);
    if(!errs.empty() && !errs.count(code)) die("wrong-exception", "threw DOMException " + std::to_string(code) + ", the specification requires " + es);
    if(code) { probe("failed-call"); fault("failed-call"); }
    return !code;
  }
  void result(const S& r, M* want, Node got) { f.cmp.clear(); if(!f.same(want, r, want, got)) die("wrong-result", f.cmp); }
  void resultNull(const S& r, M* want, Node got) { f.cmp.clear(); if(!want) { if(got != 0) die("wrong-result", r + ": expected null"); return; } result(r, want, got); }

  std::vector<M*> live(std::function<bool(M*)> p) { std::vector<M*> v; for(auto& m : f.all) if(!m->dead && m->h != 0 && m->type != B::ENTITY_NODE && p(m.get())) v.push_back(m.get()); return v; }
  M* any() { auto v = live([](M*) { return true; }); return v[choose((uint32_t)v.size())]; }
  M* any(int type) { auto v = live([&](M* m) { return m->type == type; }); return v.empty() ? 0 : v[choose((uint32_t)v.size())]; }
  M* anyDoc() { return f.docs[choose((uint32_t)f.docs.size())]; }
  M* container() { // likely parents
    auto v = live([](M* m) { return !Forest::childless(m) && m->type != B::ATTRIBUTE_NODE; });
    if(chance(1, 12)) return any();
    return v[choose((uint32_t)v.size())];
  }

  S elName() { return "e" + std::to_string(choose(4)); }
  S atName() { static const char* n[] = {"a0", "a1", "a2", "id", "d0", "d1"}; return n[choose(6)]; }
  struct Q { const char *ns, *q; };
  Q elQ() { static const Q q[] = {{"u1", "p:a"}, {"u1", "p:b"}, {"u2", "q:a"}, {"", "e0"}, {"", "e5"}, {"u3", "n3"}}; return q[choose(6)]; }
  Q atQ() { static const Q q[] = {{"u1", "p:x"}, {"u1", "p:y"}, {"u2", "q:x"}, {"", "a0"}, {"", "a5"}, {"http://www.w3.org/XML/1998/namespace", "xml:lang"}}; return q[choose(6)]; }
  S data() { static const char* d[] = {"", "v", "text", "i0", "i1", "<&\"'>", "longer piece of character data", "\xc3\xa9"}; return d[choose(8)]; }
  static void split(const S& q, S& p, S& l) { size_t i = q.find(':'); if(i == S::npos) { p.clear(); l = q; } else { p = q.substr(0, i); l = q.substr(i + 1); } }
  M* nsNode(int type, Q q, M* d) { M* n = f.mk(type, q.q, d); n->ns = q.ns; split(q.q, n->prefix, n->local); return n; }
  S badName() { static const char* n[] = {"", "a b", "a<", "&", "x/"}; return n[choose(5)]; }

  void opCreate() {
    M* d = anyDoc(); Doc real(d->h);
    int k = choose(12); what = "create#" + std::to_string(k) + " in " + f.show(d); Node r; M* n = 0; Errs e;
    bool bad = chance(1, 10);
    switch(k) {
      case 0: case 1: { S name = bad ? badName() : elName(); if(bad) e.insert(X::INVALID_CHARACTER_ERR); what += " element " + quote(name); if(call(e, [&] { r = real.createElement(name); })) { n = f.mk(B::ELEMENT_NODE, name, d); f.addDefaults(n); } break; }
      case 2: case 3: { Q q = elQ(); S ns = q.ns; if(bad) { if(coin()) { q.q = "p:z"; ns = ""; } else { q.q = "xml:z"; ns = "u1"; } e.insert(X::NAMESPACE_ERR); }
        what += S(" elementNS ") + ns + " " + q.q; if(call(e, [&] { r = real.createElementNS(ns, q.q); })) { q.ns = ns.c_str(); n = nsNode(B::ELEMENT_NODE, q, d); f.addDefaults(n); } break; }
      case 4: { S t = data(); if(call(e, [&] { r = real.createTextNode(t); })) { n = f.mk(B::TEXT_NODE, "#text", d); n->value = t; } break; }
      case 5: { S t = data(); if(call(e, [&] { r = real.createComment(t); })) { n = f.mk(B::COMMENT_NODE, "#comment", d); n->value = t; } break; }
      case 6: { S t = data(); if(call(e, [&] { r = real.createCDATASection(t); })) { n = f.mk(B::CDATA_SECTION_NODE, "#cdata-section", d); n->value = t; } break; }
      case 7: { S t = data(), name = bad ? badName() : elName(); if(bad) e.insert(X::INVALID_CHARACTER_ERR); if(call(e, [&] { r = real.createProcessingInstruction(name, t); })) { n = f.mk(B::PROCESSING_INSTRUCTION_NODE, name, d); n->value = t; } break; }
      case 8: { S name = bad ? badName() : atName(); if(bad) e.insert(X::INVALID_CHARACTER_ERR); what += " attr " + quote(name); if(call(e, [&] { r = real.createAttribute(name); })) n = f.mk(B::ATTRIBUTE_NODE, name, d); break; }
      case 9: { Q q = atQ(); S ns = q.ns; if(bad) { q.q = "p:z"; ns = ""; e.insert(X::NAMESPACE_ERR); } what += S(" attrNS ") + ns + " " + q.q; if(call(e, [&] { r = real.createAttributeNS(ns, q.q); })) n = nsNode(B::ATTRIBUTE_NODE, q, d); break; }
      case 10: if(call(e, [&] { r = real.createDocumentFragment(); })) n = f.mk(B::DOCUMENT_FRAGMENT_NODE, "#document-fragment", d); break;
      case 11: { S name = bad ? badName() : coin() ? S("ent") : S("t"); if(bad) e.insert(X::INVALID_CHARACTER_ERR); what += " entity reference " + quote(name); if(call(e, [&] { r = real.createEntityReference(name); })) n = f.entityRef(name, d); break; }
    }
    if(n) n->h = r;
  }
  M* child() { // what to insert
    if(chance(1, 10)) return any();
    auto v = live([](M* m) { return m->type != B::DOCUMENT_NODE && m->type != B::ATTRIBUTE_NODE && !m->ro && !(m->type == B::DOCUMENT_TYPE_NODE && m->parent); });
    if(coin()) { auto w = live([](M* m) { return m->type != B::DOCUMENT_NODE && m->type != B::ATTRIBUTE_NODE && !m->parent && !(m->type == B::DOCUMENT_TYPE_NODE); }); if(!w.empty()) return w[choose((uint32_t)w.size())]; }
    return v.empty() ? any() : v[choose((uint32_t)v.size())];
  }
  static bool ownDoctype(M* m) { return m->type == B::DOCUMENT_TYPE_NODE && m->parent; }
  M* kid(M* p) { return p->ch.empty() || chance(1, 10) ? any() : p->ch[choose((uint32_t)p->ch.size())]; }
  void opInsert() {
    M* p = container(); if(chance(1, 10)) if(M* a = any(B::ATTRIBUTE_NODE)) p = a;
    M* x = child(); if(ownDoctype(x)) return;
    M* ref = coin() ? 0 : kid(p); Node r;
    what = (ref ? "insertBefore " : "appendChild ") + f.show(x) + " into " + f.show(p) + (ref ? " before " + f.show(ref) : S());
    Errs e = f.insertErrs(p, x, ref);
    if(call(e, [&] { r = ref ? p->h.insertBefore(x->h, ref->h) : coin_(p, x); })) { f.insert(p, x, ref); result("result", x, r); shape((uint64_t)(p->type * 16 + x->type)); }
  }
  Node coin_(M* p, M* x) { return p->h.appendChild(x->h); }
  void opReplace() {
    M* p = container(); M* x = child(); M* o = kid(p); if(ownDoctype(x) || ownDoctype(o)) return;
    what = "replaceChild " + f.show(o) + " of " + f.show(p) + " by " + f.show(x); Node r;
    if(call(f.replaceErrs(p, x, o), [&] { r = p->h.replaceChild(x->h, o->h); })) { f.replace(p, x, o); result("result", o, r); shape((uint64_t)(512 + o->type * 16 + x->type)); }
  }
  void opRemove() {
    M* p = container(); M* o = kid(p); if(ownDoctype(o)) return;
    what = "removeChild " + f.show(o) + " of " + f.show(p); Node r;
    if(call(f.removeErrs(p, o), [&] { r = p->h.removeChild(o->h); })) { f.detach(o); result("result", o, r); }
  }
  void opClone() {
    M* n = any(); if(n->type == B::DOCUMENT_TYPE_NODE) return;
    if(n->type == B::ATTRIBUTE_NODE && !n->spec) return;
    bool deep = coin() || n->type == B::DOCUMENT_NODE; Node r;
    if(n->type == B::DOCUMENT_NODE && f.docs.size() > 3) return;
    what = S("cloneNode ") + (deep ? "deep " : "shallow ") + f.show(n);
    call({}, [&] { r = n->h.cloneNode(deep); });
    M* c;
    if(n->type == B::DOCUMENT_NODE) { c = f.mk(B::DOCUMENT_NODE, "#document", 0); for(M* k : n->ch) { M* d = f.copy(k, c, true, true); d->parent = c; c->ch.push_back(d); } f.docs.push_back(c); }
    else c = f.copy(n, n->doc, deep);
    c->h = r;
  }
  void opImport() {
    M* d = anyDoc(); M* n = any(); bool deep = coin(); Errs e; Node r;
    if(n->type == B::DOCUMENT_NODE || n->type == B::DOCUMENT_TYPE_NODE) e.insert(X::NOT_SUPPORTED_ERR);
    what = S("importNode ") + (deep ? "deep " : "shallow ") + f.show(n) + " into " + f.show(d);
    if(call(e, [&] { Doc x(d->h); r = x.importNode(n->h, deep); })) { M* c = f.copy(n, d, deep, true); c->h = r; }
  }
  void opText() {
    M* n = any(coin() ? B::TEXT_NODE : choose(2) ? B::CDATA_SECTION_NODE : B::COMMENT_NODE); if(!n) return;
    D::CharacterData<S> c(n->h); int len = (int)n->value.size();
    int off = chance(1, 8) ? (coin() ? -1 - (int)choose(3) : len + 1 + (int)choose(3)) : range(0, len), cnt = chance(1, 8) ? (coin() ? -1 : 1000) : range(0, len);
    S arg = data(); Errs e; if(n->ro) e.insert(X::NO_MODIFICATION_ALLOWED_ERR);
    bool badOff = off < 0 || off > len;
    int k = choose(7); what = "chardata#" + std::to_string(k) + " " + f.show(n) + " off " + std::to_string(off) + " count " + std::to_string(cnt);
    switch(k) {
      case 0: if(call(e, [&] { c.setData(arg); })) n->value = arg; break;
      case 1: if(call(e, [&] { c.appendData(arg); })) n->value += arg; break;
      case 2: if(badOff) e.insert(X::INDEX_SIZE_ERR); if(call(e, [&] { c.insertData(off, arg); })) n->value.insert(off, arg); break;
      case 3: if(badOff || cnt < 0) e.insert(X::INDEX_SIZE_ERR); if(call(e, [&] { c.deleteData(off, cnt); })) n->value.erase(off, cnt); break;
      case 4: if(badOff || cnt < 0) e.insert(X::INDEX_SIZE_ERR); if(call(e, [&] { c.replaceData(off, cnt, arg); })) n->value.replace(off, cnt, arg); break;
      case 5: { Errs q; if(badOff || cnt < 0) q.insert(X::INDEX_SIZE_ERR); S got; if(call(q, [&] { got = c.substringData(off, cnt); })) { if(got != n->value.substr(off, cnt)) die("wrong-result", "substringData gave " + quote(got)); } break; }
      case 6: {
        if(n->type == B::COMMENT_NODE) return;
        if(badOff) e.insert(X::INDEX_SIZE_ERR);
        what = "splitText " + f.show(n) + " at " + std::to_string(off); Node r;
        if(call(e, [&] { if(n->type == B::TEXT_NODE) { D::Text<S> t(n->h); r = t.splitText(off); } else { D::CDATASection<S> t(n->h); r = t.splitText(off); } })) {
          M* t = f.mk(n->type, n->name, n->doc); t->value = n->value.substr(off); n->value.erase(off); t->h = r;
          if(n->parent) { M* p = n->parent; f.place(p, t, Forest::next(n)); }
        }
      }
    }
    if(c.getLength() != (int)n->value.size()) die("wrong-result", "getLength " + std::to_string(c.getLength()));
  }
  void opValue() {
    M* n = any(); S v = data(); Errs e; what = "setNodeValue " + f.show(n) + " " + quote(v);
    if(n->ro && (n->type == B::ATTRIBUTE_NODE || (Forest::childless(n) && n->type != B::DOCUMENT_TYPE_NODE))) e.insert(X::NO_MODIFICATION_ALLOWED_ERR);
    if(n->type == B::DOCUMENT_TYPE_NODE) return;
    if(call(e, [&] { n->h.setNodeValue(v); })) f.setValue(n, v);
  }
  void opNormalize() { M* n = any(); what = "normalize " + f.show(n); call({}, [&] { n->h.normalize(); }); f.normalize(n); }
  // several pieces of character data side by side, perhaps normalised
  void opRun() {
    M* p = chance(1, 6) ? any(B::ATTRIBUTE_NODE) : any(B::ELEMENT_NODE); if(!p || p->ro) return;
    M* d = p->doc; Doc real(d->h); M* ref = p->ch.empty() || coin() ? 0 : p->ch[choose((uint32_t)p->ch.size())];
    what = "a run of character data in " + f.show(p);
    for(int k = range(2, 6); k > 0; --k) {
      int kind = p->type == B::ATTRIBUTE_NODE ? 0 : choose(5); S t = data(); Node r; M* n;
      call({}, [&] { if(kind < 3) r = real.createTextNode(t); else if(kind == 3) r = real.createCDATASection(t); else r = real.createComment(t); });
      n = kind < 3 ? f.mk(B::TEXT_NODE, "#text", d) : kind == 3 ? f.mk(B::CDATA_SECTION_NODE, "#cdata-section", d) : f.mk(B::COMMENT_NODE, "#comment", d);
      n->value = t; n->h = r;
      if(call(f.insertErrs(p, n, ref), [&] { if(ref) p->h.insertBefore(n->h, ref->h); else p->h.appendChild(n->h); })) f.insert(p, n, ref);
    }
    if(coin()) return;
    while(p->parent && chance(1, 4)) p = p->parent;
    verify(); what += ", normalize " + f.show(p); call({}, [&] { p->h.normalize(); }); f.normalize(p);
  }
  void opPrefix() {
    auto c = live([](M* m) { return (m->type == B::ELEMENT_NODE || m->type == B::ATTRIBUTE_NODE) && !m->local.empty(); }); if(c.empty()) return;
    M* n = c[choose((uint32_t)c.size())]; S p = n->ns == "u1" ? (coin() ? "p" : "p2") : n->ns == "u2" ? (coin() ? "q" : "q2") : n->ns == "u3" ? "n" : "z"; Errs e;
    if(n->ns.find("http") == 0) return;
    int bad = chance(1, 6) ? 1 + choose(2) : 0;
    if(bad == 1) { p = "xml"; e.insert(X::NAMESPACE_ERR); } else if(bad == 2) { p = "a b"; e.insert(X::INVALID_CHARACTER_ERR); }
    if(n->ns.empty()) e.insert(X::NAMESPACE_ERR);
    if(n->ro) e.insert(X::NO_MODIFICATION_ALLOWED_ERR);
    if(!bad && n->type == B::ELEMENT_NODE && n->ns == "u3" && coin()) p = "";
    what = "setPrefix " + f.show(n) + " " + quote(p);
    if(call(e, [&] { n->h.setPrefix(p); })) { n->prefix = p; n->name = p.empty() ? n->local : p + ":" + n->local; }
  }
  void opAttr() {
    M* n = any(B::ELEMENT_NODE); if(!n) return; Elem e(n->h); Errs er; Node r;
    if(n->ro) er.insert(X::NO_MODIFICATION_ALLOWED_ERR);
    D::NamedNodeMap<S> map = n->h.getAttributes();
    int k = choose(14); what = "attr#" + std::to_string(k) + " of " + f.show(n);
    auto pickAttr = [&]() -> M* { if(!n->attrs.empty() && coin()) return n->attrs[choose((uint32_t)n->attrs.size())]; return any(B::ATTRIBUTE_NODE); };
    switch(k) {
      case 0: case 1: {
        S a = n->attrs.empty() || coin() ? atName() : n->attrs[choose((uint32_t)n->attrs.size())]->name, val = data(); if(chance(1, 12)) { a = badName(); er.insert(X::INVALID_CHARACTER_ERR); }
        what += " setAttribute " + quote(a) + " " + quote(val);
        if(call(er, [&] { e.setAttribute(a, val); })) { M* x = Forest::byName(n, a); if(!x) { x = f.mk(B::ATTRIBUTE_NODE, a, n->doc); f.setAttr(n, x); } f.setValue(x, val); }
        break;
      }
      case 2: case 3: {
        Q q = atQ(); S val = data(), ns = q.ns; if(chance(1, 12)) { q.q = "p:z"; ns = ""; er.insert(X::NAMESPACE_ERR); }
        what += S(" setAttributeNS ") + ns + " " + q.q + " " + quote(val);
        if(call(er, [&] { e.setAttributeNS(ns, q.q, val); })) {
          S p, l; split(q.q, p, l); M* x = Forest::byNS(n, q.ns, l);
          if(!x || x->local.empty()) { x = nsNode(B::ATTRIBUTE_NODE, q, n->doc); f.setAttr(n, x); } else { x->prefix = p; x->name = q.q; }
          f.setValue(x, val);
        }
        break;
      }
      case 4: { S a = n->attrs.empty() || chance(1, 4) ? atName() : n->attrs[choose((uint32_t)n->attrs.size())]->name; what += " removeAttribute " + a;
        if(call(er, [&] { e.removeAttribute(a); })) if(M* x = Forest::byName(n, a)) f.dropAttr(n, x);
        break; }
      case 5: { S ns, l; if(n->attrs.empty() || chance(1, 4)) { Q q = atQ(); S p; ns = q.ns; split(q.q, p, l); } else { M* a = n->attrs[choose((uint32_t)n->attrs.size())]; ns = a->ns; l = a->local.empty() ? a->name : a->local; }
        what += " removeAttributeNS " + ns + " " + l;
        if(call(er, [&] { e.removeAttributeNS(ns, l); })) if(M* x = Forest::byNS(n, ns, l)) f.dropAttr(n, x);
        break; }
      case 6: { S a = n->attrs.empty() || coin() ? atName() : n->attrs[choose((uint32_t)n->attrs.size())]->name; what += " map.removeNamedItem " + a; M* x = Forest::byName(n, a); if(!x) er.insert(X::NOT_FOUND_ERR);
        if(call(er, [&] { r = map.removeNamedItem(a); })) { f.dropAttr(n, x); result("result", x, r); }
        break; }
      case 7: { M* a = pickAttr(); if(!a) return; what += " removeAttributeNode " + f.show(a); if(a->owner != n) er.insert(X::NOT_FOUND_ERR);
        if(call(er, [&] { r = e.removeAttributeNode(Attr(a->h)); })) { f.dropAttr(n, a); result("result", a, r); }
        break; }
      case 8: case 9: case 10: case 11: case 12: {
        M* a = any(B::ATTRIBUTE_NODE); if(!a) return; if(!a->owner || chance(3, 4)) { auto w = live([&](M* m) { return m->type == B::ATTRIBUTE_NODE && !m->owner && m->doc == n->doc; }); if(!w.empty()) a = w[choose((uint32_t)w.size())]; }
        if(a->owner == n && n->ro) return;
        what += " set node " + f.show(a) + (a->owner ? " of " + f.show(a->owner) : S());
        if(a->doc != n->doc) er.insert(X::WRONG_DOCUMENT_ERR);
        if(a->owner && a->owner != n) er.insert(X::INUSE_ATTRIBUTE_ERR);
        bool ns = k == 10 || k == 11;
        // an attribute of the same qualified name but another expanded name would make the map's order matter
        M* clash = ns ? Forest::byName(n, a->name) : 0; if(clash && clash->ns != a->ns) return;
        bool ok = call(er, [&] { switch(k) { case 8: case 9: r = e.setAttributeNode(Attr(a->h)); break; case 10: r = e.setAttributeNodeNS(Attr(a->h)); break; case 11: r = map.setNamedItemNS(a->h); break; case 12: r = map.setNamedItem(a->h); } });
        if(ok && a->owner != n) { M* o = ns ? f.setAttr(n, a) : f.setAttrByName(n, a); resultNull("result", o, r); }
        break;
      }
      case 13: { // not an attribute
        M* x = any(); if(x->type == B::ATTRIBUTE_NODE) return; what += " map.setNamedItem " + f.show(x); er.insert(X::HIERARCHY_REQUEST_ERR); if((x->type == B::DOCUMENT_NODE ? x : x->doc) != n->doc) er.insert(X::WRONG_DOCUMENT_ERR);
        bool ns = coin(); call(er, [&] { if(ns) map.setNamedItemNS(x->h); else map.setNamedItem(x->h); }); break;
      }
    }
  }
  void opDoc() {
    if(f.docs.size() > 3) return; Node r, t; M* dt = 0; int k = choose(4); if(k == 3 && f.docs.empty()) k = 0;
    if(k & 1) { what = "createDocumentType"; call({}, [&] { t = di.createDocumentType("r", "pub", "sys"); }); dt = f.mk(B::DOCUMENT_TYPE_NODE, "r", 0); dt->ro = true; dt->h = t; }
    if(k == 3) { // kept for later: appendChild into some document
      M* d = anyDoc(); what = "appendChild doctype into " + f.show(d); if(Forest::docType(d)) { call({X::HIERARCHY_REQUEST_ERR}, [&] { d->h.appendChild(t); }); return; }
      call({}, [&] { d->h.appendChild(t); }); f.place(d, dt, 0); return;
    }
    what = "createDocument"; S q = coin() ? "p:a" : "";
    call({}, [&] { r = di.createDocument(q.empty() ? "" : "u1", q, dt ? D::DocumentType<S>(t) : D::DocumentType<S>()); });
    M* d = f.mk(B::DOCUMENT_NODE, "#document", 0); d->h = r; if(dt) { f.place(d, dt, 0); }
    if(!q.empty()) { M* el = nsNode(B::ELEMENT_NODE, Q{"u1", "p:a"}, d); el->parent = d; d->ch.push_back(el); }
    f.docs.push_back(d);
  }
  void start() {
    heap_choose_policy();
    di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
    if(coin()) { opDoc(); }
    if(f.docs.empty() || coin()) {
      Node r;
      { Sut s; Arabica::SAX2DOM::Parser<S> p; std::istringstream is(DTDDOC); Arabica::SAX::InputSource<S> in(is); p.parse(in); r = p.getDocument(); }
      M* d = f.adopt(r, 0); f.docs.push_back(d);
      M* dt = Forest::docType(d); dt->ro = true;
      auto& t = f.dtd[d]; t.defaults["e0"] = {{"d0", "dv"}}; t.defaults["e1"] = {{"d1", "dw"}, {"d2", "dx"}}; t.ids.insert("e0"); t.ids.insert("e1");
      Doc real(r); D::NamedNodeMap<S> en = real.getDoctype().getEntities();
      for(unsigned i = 0; i < en.getLength(); ++i) { M* e = f.adopt(en.item(i), d); f.makeRo(e); t.entities[e->name] = e; }
    }
    if(f.docs.size() == 1 && coin()) opDoc();
  }
  void verify() {
    S before = what; what = before;
    bool ok; { Sut s; ok = f.check(); }
    if(!ok) die("tree-differs", f.cmp);
  }
};

void run(bool views) {
  World w; Views v(w.f); w.v = &v;
  w.start();
  w.what = "start"; w.verify();
  int n = range(3, 45), clients = range(1, 3);
  for(int i = 0; i < n; ++i) {
    w.client = choose(clients);
    if(views && chance(2, 5)) { v.step(w.what); continue; }
    switch(choose(21)) {
      case 0: case 1: case 2: w.opCreate(); break;
      case 3: case 4: case 5: case 6: w.opInsert(); break;
      case 7: case 8: w.opReplace(); break;
      case 9: w.opRemove(); break;
      case 10: w.opClone(); break;
      case 11: w.opImport(); break;
      case 12: case 13: w.opText(); break;
      case 14: w.opValue(); break;
      case 15: w.opNormalize(); break;
      case 16: w.opPrefix(); break;
      case 17: case 18: w.opAttr(); break;
      case 19: w.opDoc(); break;
      case 20: w.opRun(); break;
    }
    w.verify();
    if(views && coin()) v.check(w.what);
    size_t cnt = 0; for(auto& m : w.f.all) cnt += !m->dead; if(cnt > 260) break;
  }
  if(views) v.check("end");
  nontrivial();
}
void p11() { run(false); }
void p12() { run(true); }
sim::Reg r11("P11", p11, nullptr, 40000000);
sim::Reg r12("P12", p12, nullptr, 40000000);
}
