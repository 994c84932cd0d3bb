// Reference model of a set of DOM documents and the operations on it, with the real handles bound to it.
#ifndef VERIF_DOM_MODEL_HPP
#define VERIF_DOM_MODEL_HPP
#include "../sim/dom.hpp"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/DocumentFragment.hpp>
#include <DOM/CDATASection.hpp>
#include <DOM/Comment.hpp>
#include <DOM/EntityReference.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <sstream>

namespace dm {
typedef std::string S;
namespace D = Arabica::DOM;
typedef D::Node<S> Node;
typedef D::Document<S> Doc;
typedef D::Element<S> Elem;
typedef D::Attr<S> Attr;
typedef D::DOMException X;
typedef D::Node_base B;
using namespace sim;

struct M {
  int id, type; S name, ns, prefix, local, value; bool ro = false, spec = true;
  std::vector<M*> ch, attrs; M* parent = 0; M* owner = 0; M* doc = 0; // doc==0: doctype not yet in a document
  Node h; bool dead = false;
};

struct Forest {
  std::vector<std::unique_ptr<M>> all;
  std::vector<M*> docs;
  // what a document type declares
  struct Dtd { std::map<S, std::vector<std::pair<S, S>>> defaults; std::set<S> ids; std::map<S, M*> entities; };
  std::map<M*, Dtd> dtd;

  M* mk(int type, const S& name, M* doc) { all.emplace_back(new M); M* m = all.back().get(); m->id = (int)all.size() - 1; m->type = type; m->name = name; m->doc = doc; return m; }
  static bool childless(const M* m) { return m->type == B::TEXT_NODE || m->type == B::CDATA_SECTION_NODE || m->type == B::COMMENT_NODE || m->type == B::PROCESSING_INSTRUCTION_NODE || m->type == B::DOCUMENT_TYPE_NODE; }
  static bool allows(const M* p, const M* c) {
    int t = c->type;
    switch(p->type) {
      case B::DOCUMENT_NODE: return t == B::ELEMENT_NODE || t == B::PROCESSING_INSTRUCTION_NODE || t == B::COMMENT_NODE || t == B::DOCUMENT_TYPE_NODE;
      case B::ATTRIBUTE_NODE: return t == B::TEXT_NODE || t == B::ENTITY_REFERENCE_NODE;
      case B::ELEMENT_NODE: case B::DOCUMENT_FRAGMENT_NODE: case B::ENTITY_REFERENCE_NODE:
        return t == B::ELEMENT_NODE || t == B::TEXT_NODE || t == B::COMMENT_NODE || t == B::PROCESSING_INSTRUCTION_NODE || t == B::CDATA_SECTION_NODE || t == B::ENTITY_REFERENCE_NODE;
    }
    return false;
  }
  static M* up(const M* n) { return n->parent; }
  static bool within(const M* n, const M* anc) { for(const M* p = n; p; p = p->parent) if(p == anc) return true; return false; }
  static M* docElem(M* d) { for(M* c : d->ch) if(c->type == B::ELEMENT_NODE) return c; return 0; }
  static M* docType(M* d) { for(M* c : d->ch) if(c->type == B::DOCUMENT_TYPE_NODE) return c; return 0; }
  static int index(const M* n) { auto& v = n->parent->ch; return (int)(std::find(v.begin(), v.end(), n) - v.begin()); }
  static M* prev(const M* n) { if(!n->parent || n->type == B::ATTRIBUTE_NODE) return 0; int i = index(n); return i ? n->parent->ch[i - 1] : 0; }
  static M* next(const M* n) { if(!n->parent || n->type == B::ATTRIBUTE_NODE) return 0; int i = index(n); return i + 1 < (int)n->parent->ch.size() ? n->parent->ch[i + 1] : 0; }
  static bool attached(const M* n) { const M* p = n; while(p->parent) p = p->parent; return p->type == B::DOCUMENT_NODE; }
  static S concat(const M* m) { S s; for(M* c : m->ch) s += c->type == B::ENTITY_REFERENCE_NODE ? concat(c) : c->value; return s; }
  static S valueOf(const M* m) { return m->type == B::ATTRIBUTE_NODE ? concat(m) : m->value; }

  void detach(M* n) { if(!n->parent) return; auto& v = n->parent->ch; v.erase(std::find(v.begin(), v.end(), n)); n->parent = 0; }
  void place(M* p, M* n, M* ref) { detach(n); auto& v = p->ch; v.insert(ref ? std::find(v.begin(), v.end(), ref) : v.end(), n); n->parent = p; if(!n->doc) setDoc(n, p->type == B::DOCUMENT_NODE ? p : p->doc); }
  void setDoc(M* n, M* d) { n->doc = d; for(M* c : n->ch) setDoc(c, d); for(M* a : n->attrs) setDoc(a, d); }
  M* docOf(M* n) { return n->type == B::DOCUMENT_NODE ? n : n->doc; }

  typedef std::set<int> Errs;
  Errs canInsert(M* p, M* x, M* ref, M* gone) { // gone: the node being replaced
    Errs e;
    if(p->ro) e.insert(X::NO_MODIFICATION_ALLOWED_ERR);
    if(ref && ref->parent != p) e.insert(X::NOT_FOUND_ERR);
    if(childless(p)) e.insert(X::HIERARCHY_REQUEST_ERR);
    M* xd = x->type == B::DOCUMENT_NODE ? x : x->doc;
    if(xd && xd != docOf(p)) e.insert(X::WRONG_DOCUMENT_ERR);
    if(within(p, x)) e.insert(X::HIERARCHY_REQUEST_ERR);
    if(x->parent && x->parent->ro) e.insert(X::NO_MODIFICATION_ALLOWED_ERR);
    std::vector<M*> adds; if(x->type == B::DOCUMENT_FRAGMENT_NODE) adds = x->ch; else adds.push_back(x);
    for(M* a : adds) if(!allows(p, a)) e.insert(X::HIERARCHY_REQUEST_ERR);
    if(p->type == B::DOCUMENT_NODE) {
      int el = 0, dt = 0;
      for(M* c : p->ch) if(c != gone && c != x) { el += c->type == B::ELEMENT_NODE; dt += c->type == B::DOCUMENT_TYPE_NODE; }
      for(M* a : adds) { el += a->type == B::ELEMENT_NODE; dt += a->type == B::DOCUMENT_TYPE_NODE; }
      if(el > 1 || dt > 1) e.insert(X::HIERARCHY_REQUEST_ERR);
    }
    return e;
  }
  Errs insertErrs(M* p, M* x, M* ref) { return canInsert(p, x, ref, 0); }
  void insert(M* p, M* x, M* ref) {
    if(ref == x) return;
    if(x->type == B::DOCUMENT_FRAGMENT_NODE) { std::vector<M*> c = x->ch; for(M* k : c) place(p, k, ref); }
    else place(p, x, ref);
  }
  Errs replaceErrs(M* p, M* x, M* old) { return canInsert(p, x, old, old); }
  void replace(M* p, M* x, M* old) {
    if(x == old) return;
    M* ref = next(old); if(ref == x) ref = next(x);
    detach(old); insert(p, x, ref);
  }
  Errs removeErrs(M* p, M* o) { Errs e; if(p->ro) e.insert(X::NO_MODIFICATION_ALLOWED_ERR); if(o->parent != p) e.insert(X::NOT_FOUND_ERR); return e; }

  void text(M* n, const S& v, M* doc) { M* t = mk(B::TEXT_NODE, "#text", doc); t->value = v; t->parent = n; n->ch.push_back(t); }
  void setValue(M* n, const S& v) {
    switch(n->type) {
      case B::ATTRIBUTE_NODE: { std::vector<M*> c = n->ch; for(M* k : c) detach(k); text(n, v, n->doc); n->spec = true; break; }
      case B::TEXT_NODE: case B::CDATA_SECTION_NODE: case B::COMMENT_NODE: case B::PROCESSING_INSTRUCTION_NODE: n->value = v; break;
    }
  }
  // attributes
  static M* byName(M* e, const S& q) { for(M* a : e->attrs) if(a->name == q) return a; return 0; }
  static M* byNS(M* e, const S& ns, const S& l) {
    for(M* a : e->attrs) if(a->ns == ns && (a->local == l || (ns.empty() && a->local.empty() && a->name == l))) return a;
    return 0;
  }
  void addDefaults(M* e) { for(auto& d : dtd[e->doc].defaults[e->name]) if(!byName(e, d.first)) addDefault(e, d); }
  void addDefault(M* e, const std::pair<S, S>& d) { M* a = mk(B::ATTRIBUTE_NODE, d.first, e->doc); text(a, d.second, e->doc); a->spec = false; a->owner = e; e->attrs.push_back(a); }
  M* setAttr(M* e, M* a) { // returns the one replaced
    M* o = a->local.empty() ? byNS(e, "", a->name) : byNS(e, a->ns, a->local);
    if(o) { *std::find(e->attrs.begin(), e->attrs.end(), o) = a; o->owner = 0; } else e->attrs.push_back(a);
    a->owner = e; return o;
  }
  M* setAttrByName(M* e, M* a) {
    M* o = byName(e, a->name);
    if(o) { *std::find(e->attrs.begin(), e->attrs.end(), o) = a; o->owner = 0; } else e->attrs.push_back(a);
    a->owner = e; return o;
  }
  void dropAttr(M* e, M* a) {
    e->attrs.erase(std::find(e->attrs.begin(), e->attrs.end(), a)); a->owner = 0;
    for(auto& d : dtd[e->doc].defaults[e->name]) if(d.first == a->name && !byName(e, d.first)) addDefault(e, d);
  }
  M* like(M* n, M* doc) { M* c = mk(n->type, n->name, doc); c->ns = n->ns; c->prefix = n->prefix; c->local = n->local; c->value = n->value; return c; }
  void makeRo(M* n) { n->ro = true; for(M* c : n->ch) makeRo(c); for(M* a : n->attrs) makeRo(a); }
  M* entityRef(const S& name, M* doc) {
    M* r = mk(B::ENTITY_REFERENCE_NODE, name, doc);
    auto it = dtd[doc].entities.find(name);
    if(it != dtd[doc].entities.end()) for(M* c : it->second->ch) { M* k = copy(c, doc, true, true); k->parent = r; r->ch.push_back(k); }
    makeRo(r); return r;
  }
  M* copy(M* n, M* doc, bool deep, bool import = false) {
    if(n->type == B::ENTITY_REFERENCE_NODE) return entityRef(n->name, doc);
    M* c = like(n, doc);
    if(n->type == B::ATTRIBUTE_NODE) { deep = true; if(!import) c->spec = n->spec; }
    if(n->type == B::ELEMENT_NODE) {
      addDefaults(c);
      for(M* a : n->attrs) if(a->spec) { M* k = copy(a, doc, true, import); if(k->local.empty()) setAttrByName(c, k); else setAttr(c, k); }
    }
    if(deep) for(M* k : n->ch) { M* d = copy(k, doc, true, import); d->parent = c; c->ch.push_back(d); }
    return c;
  }
  void normalize(M* n) {
    if(n->ro) return;
    for(size_t i = 0; i < n->ch.size();) {
      M* t = n->ch[i];
      if(t->type != B::TEXT_NODE) { normalize(t); ++i; continue; }
      while(i + 1 < n->ch.size() && n->ch[i + 1]->type == B::TEXT_NODE) { t->value += n->ch[i + 1]->value; detach(n->ch[i + 1]); }
      if(t->value.empty()) detach(t); else ++i;
    }
    for(M* a : n->attrs) normalize(a);
  }
  // ---- binding and comparing
  std::string cmp; // first difference
  static S show(const M* n) { return n ? "n" + std::to_string(n->id) + ":" + std::to_string(n->type) + ":" + n->name : S("null"); }
  bool bad(const M* n, const S& what, const S& want, const S& got) { if(cmp.empty()) cmp = show(n) + " " + what + ": expected " + quote(want) + ", got " + quote(got); return false; }
  bool same(M* n, const S& what, M* want, Node got) {
    if(!want) { if(got != 0) return bad(n, what, "null", "a node " + S(got.getNodeName())); return true; }
    if(got == 0) return bad(n, what, show(want), "null");
    if(want->h == 0) { want->h = got; return true; }
    if(got != want->h) return bad(n, what, show(want), "another node: " + S(got.getNodeName()));
    return true;
  }
  bool compare(M* n, Node r) { // whole subtree
    if(!same(n, "node", n, r)) return false;
    if(r.getNodeType() != n->type) return bad(n, "type", std::to_string(n->type), std::to_string(r.getNodeType()));
    if(S(r.getNodeName()) != n->name) return bad(n, "name", n->name, r.getNodeName());
    if(S(r.getNodeValue()) != valueOf(n)) return bad(n, "value", valueOf(n), r.getNodeValue());
    if(S(r.getNamespaceURI()) != n->ns) return bad(n, "namespace", n->ns, r.getNamespaceURI());
    if(S(r.getPrefix()) != n->prefix) return bad(n, "prefix", n->prefix, r.getPrefix());
    if(S(r.getLocalName()) != n->local) return bad(n, "local name", n->local, r.getLocalName());
    if(!same(n, "parent", n->parent && n->parent->type != B::ENTITY_NODE ? n->parent : 0, r.getParentNode())) return false;
    if(!same(n, "previousSibling", prev(n), r.getPreviousSibling()) || !same(n, "nextSibling", next(n), r.getNextSibling())) return false;
    if(n->type == B::DOCUMENT_NODE ? r.getOwnerDocument() != 0 : !same(n, "ownerDocument", n->doc, r.getOwnerDocument())) return bad(n, "ownerDocument", show(n->doc), "?");
    if(r.hasChildNodes() != !n->ch.empty()) return bad(n, "hasChildNodes", std::to_string(n->ch.size()), "");
    if(!same(n, "firstChild", n->ch.empty() ? 0 : n->ch[0], r.getFirstChild()) || !same(n, "lastChild", n->ch.empty() ? 0 : n->ch.back(), r.getLastChild())) return false;
    D::NodeList<S> l = r.getChildNodes();
    if(l.getLength() != n->ch.size()) return bad(n, "childNodes length", std::to_string(n->ch.size()), std::to_string(l.getLength()));
    for(size_t i = 0; i < n->ch.size(); ++i) { if(!same(n, "childNodes[" + std::to_string(i) + "]", n->ch[i], l.item((unsigned)i)) || !compare(n->ch[i], l.item((unsigned)i))) return false; }
    if(n->type == B::ELEMENT_NODE) {
      Elem e(r); D::NamedNodeMap<S> m = r.getAttributes();
      if(m.getLength() != n->attrs.size()) return bad(n, "number of attributes", std::to_string(n->attrs.size()), std::to_string(m.getLength()));
      if(r.hasAttributes() != !n->attrs.empty()) return bad(n, "hasAttributes", std::to_string(n->attrs.size()), "");
      std::set<M*> seen;
      for(unsigned i = 0; i < m.getLength(); ++i) {
        Node a = m.item(i); if(a == 0) return bad(n, "attributes[" + std::to_string(i) + "]", "a node", "null");
        M* k = 0;
        for(M* c : n->attrs) if(!seen.count(c) && (c->h != 0 ? c->h == a : c->name == S(a.getNodeName()) && c->ns == S(a.getNamespaceURI()))) { k = c; break; }
        if(!k) return bad(n, "attributes[" + std::to_string(i) + "]", "an attribute of the model", S(a.getNodeName()) + "=" + a.getNodeValue());
        seen.insert(k);
        if(!compare(k, a)) return false;
      }
      for(M* a : n->attrs) {
        if(!same(n, "attribute " + a->name, byName(n, a->name), e.getAttributeNode(a->name))) return false;
        if(S(e.getAttribute(a->name)) != valueOf(byName(n, a->name))) return bad(n, "getAttribute " + a->name, valueOf(a), e.getAttribute(a->name));
        const S& loc = a->local.empty() ? a->name : a->local;
        if(S(e.getAttributeNS(a->ns, loc)) != valueOf(byNS(n, a->ns, loc))) return bad(n, "getAttributeNS {" + a->ns + "}" + loc, valueOf(a), e.getAttributeNS(a->ns, loc));
        if(!e.hasAttribute(a->name) || !e.hasAttributeNS(a->ns, loc)) return bad(n, "hasAttribute(NS) " + a->name, "true", "false");
      }
    }
    if(n->type == B::ATTRIBUTE_NODE) {
      Attr a(r);
      if(!same(n, "ownerElement", n->owner, a.getOwnerElement())) return false;
      if(a.getSpecified() != n->spec) return bad(n, "specified", n->spec ? "true" : "false", "");
      if(S(a.getValue()) != valueOf(n)) return bad(n, "attr value", valueOf(n), a.getValue());
    }
    if(n->type == B::DOCUMENT_NODE) {
      Doc d(r);
      if(!same(n, "documentElement", docElem(n), d.getDocumentElement())) return false;
      M* dt = docType(n); Node rdt = d.getDoctype();
      if(!same(n, "doctype", dt, rdt)) return false;
    }
    return true;
  }
  // bind a freshly read tree
  M* adopt(Node r, M* doc) {
    M* m = mk(r.getNodeType(), r.getNodeName(), doc); if(m->type == B::DOCUMENT_NODE) { m->doc = 0; doc = m; }
    m->ns = r.getNamespaceURI(); m->prefix = r.getPrefix(); m->local = r.getLocalName(); m->h = r;
    if(childless(m)) m->value = r.getNodeValue();
    for(Node c = r.getFirstChild(); c != 0; c = c.getNextSibling()) { M* k = adopt(c, doc); k->parent = m; m->ch.push_back(k); }
    if(m->type == B::ELEMENT_NODE) { D::NamedNodeMap<S> a = r.getAttributes(); for(unsigned i = 0; i < a.getLength(); ++i) { M* k = adopt(a.item(i), doc); k->owner = m; m->attrs.push_back(k); } }
    if(m->type == B::ATTRIBUTE_NODE) m->spec = Attr(r).getSpecified();
    if(m->type == B::ENTITY_REFERENCE_NODE) makeRo(m);
    return m;
  }
  bool check() {
    cmp.clear();
    for(auto& p : all) { M* n = p.get(); if(n->dead || n->parent || n->owner || n->h == 0 || n->type == B::ENTITY_NODE) continue; if(!compare(n, n->h)) return false; }
    return true;
  }
};
} // namespace dm
#endif
