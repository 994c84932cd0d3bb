// A DOM tree written down through its public interface, in the notation of the event recorder.
#ifndef VERIF_SIM_DOM_HPP
#define VERIF_SIM_DOM_HPP
#include "sax.hpp"
#include <DOM/Document.hpp>
#include <DOM/Node.hpp>
#include <DOM/Element.hpp>
#include <DOM/Attr.hpp>
#include <DOM/Text.hpp>
#include <DOM/NamedNodeMap.hpp>
#include <DOM/DocumentType.hpp>
#include <DOM/Entity.hpp>
#include <DOM/Notation.hpp>
#include <DOM/ProcessingInstruction.hpp>
#include <DOM/DOMException.hpp>

namespace simsax {
template<class st> struct DomDump {
  typedef Arabica::DOM::Node<st> Node;
  Events ev; S text;
  void flush() { if(!text.empty()) { ev.push_back("T " + text); text.clear(); } }
  void add(const S& e) { flush(); ev.push_back(e); }
  static S element(const Node& n) {
    std::vector<S> at;
    Arabica::DOM::NamedNodeMap<st> m = n.getAttributes();
    for(unsigned i = 0; i < m.getLength(); ++i) {
      Node a = m.item(i);
      S q = to_s(a.getNodeName()), v = to_s(a.getNodeValue());
      if(q.compare(0, 5, "xmlns") == 0) at.push_back(q + "=" + v);
      else at.push_back("{" + to_s(a.getNamespaceURI()) + "}" + to_s(a.getLocalName()) + " " + q + "=" + v);
    }
    std::sort(at.begin(), at.end());
    S e;
    for(auto& x : at) e += " [" + x + "]";
    return e;
  }
  void node(const Node& n) {
    typedef Arabica::DOM::Node_base B;
    switch(n.getNodeType()) {
      case B::TEXT_NODE: text += to_s(n.getNodeValue()); break;
      case B::CDATA_SECTION_NODE: add("CD+"); text += to_s(n.getNodeValue()); add("CD-"); break;
      case B::COMMENT_NODE: add("C " + to_s(n.getNodeValue())); break;
      case B::PROCESSING_INSTRUCTION_NODE: add("P " + to_s(n.getNodeName()) + " " + to_s(n.getNodeValue())); break;
      case B::ENTITY_REFERENCE_NODE: add("SKIP " + to_s(n.getNodeName())); break;
      case B::DOCUMENT_TYPE_NODE: { Arabica::DOM::DocumentType<st> d = (Arabica::DOM::DocumentType<st>)n; add("DTD+ " + to_s(d.getName()) + " " + to_s(d.getPublicId()) + " " + to_s(d.getSystemId())); break; }
      case B::ELEMENT_NODE: {
        S nm = "{" + to_s(n.getNamespaceURI()) + "}" + to_s(n.getLocalName()) + " " + to_s(n.getNodeName());
        add("SE " + nm + element(n));
        kids(n);
        add("EE " + nm);
        break; }
      default: kids(n);
    }
  }
  void kids(const Node& n) {
    Node prev;
    for(Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) {
      if(c.getParentNode() != n && n.getNodeType() != Arabica::DOM::Node_base::ENTITY_NODE) sim::fail("tree-links", "a child's parent is not its parent: " + to_s(c.getNodeName()));
      if(c.getPreviousSibling() != prev) sim::fail("tree-links", "previous sibling does not mirror next sibling");
      node(c); prev = c;
    }
    if(n.getLastChild() != prev) sim::fail("tree-links", "lastChild is not the last of the sibling chain");
  }
  static Events of(const Node& n) { DomDump d; if(n != 0) d.node(n); d.flush(); if(sim::comparing) { for(auto& e : d.ev) sim::result("node", e); } return d.ev; }
};
} // namespace simsax
#endif
