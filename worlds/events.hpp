// Event targets as a user of the library makes them: the library's nodes with
// the library's EventTargetImpl mixed in, created by a document that makes
// such nodes.  Listeners are simulated.
#pragma once
#include <SAX/XMLReader.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Simple/EventTargetImpl.hpp>
#include <DOM/Simple/MutationEventImpl.hpp>
#include <DOM/Events/Event.hpp>
#include <DOM/Events/EventTarget.hpp>
#include <DOM/Events/EventListener.hpp>
#include "../sim/core.hpp"
namespace ev {
typedef std::string S;
typedef Arabica::default_string_adaptor<S> A;
namespace D = Arabica::DOM;
namespace SD = Arabica::SimpleDOM;
typedef D::Node<S> Node;
typedef D::Events::Event<S> Event;
typedef D::Events::MutationEvent<S> MutEvent;
typedef D::Events::EventTarget<S> Target;
typedef D::Events::EventListener<S> Listener;
typedef SD::DocumentImpl<S, A> DocImpl;

struct TElement : SD::ElementImpl<S, A>, SD::EventTargetImpl<S, A> {
  TElement(DocImpl* d, const S& n) : SD::ElementImpl<S, A>(d, n) {}
  void addRef() override { SD::ElementImpl<S, A>::addRef(); }
  void releaseRef() override { SD::ElementImpl<S, A>::releaseRef(); }
};
struct TText : SD::TextImpl<S, A>, SD::EventTargetImpl<S, A> {
  TText(DocImpl* d, const S& n) : SD::TextImpl<S, A>(d, n) {}
  void addRef() override { SD::TextImpl<S, A>::addRef(); }
  void releaseRef() override { SD::TextImpl<S, A>::releaseRef(); }
};
// a document whose elements and text are event targets; it need not be one
inline bool MutEventOk(const Event& e) { return dynamic_cast<D::Events::MutationEvent_impl<S, A>*>(*e) != 0; }
struct PlainDoc : DocImpl {
  PlainDoc() : DocImpl(SD::DOMImplementation<S>::getDOMImplementation()) {}
  D::Element_impl<S, A>* createElement(const S& n) const override {
    if(!n.empty() && n[0] == 'x') return DocImpl::createElement(n);      // an element that is no event target
    TElement* e = new TElement(const_cast<PlainDoc*>(this), n); this->orphaned(e); return e;
  }
  D::Text_impl<S, A>* createTextNode(const S& n) const override { TText* e = new TText(const_cast<PlainDoc*>(this), n); this->orphaned(e); return e; }
};
struct TDoc : PlainDoc, SD::EventTargetImpl<S, A> {
  void addRef() override { DocImpl::addRef(); }
  void releaseRef() override { DocImpl::releaseRef(); }
};
// an event target that is no node
struct Lone : SD::EventTargetImpl<S, A> {
  unsigned n = 0;
  void addRef() override { ++n; }
  void releaseRef() override { if(--n == 0) delete this; }
};
}
