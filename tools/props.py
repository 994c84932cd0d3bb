#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

W = "include/SAX/wrappers/"
p("P01", "SAX events do not depend on how the input stream delivers its bytes",
  "For a well-formed document, parse() reports no error and exactly the SAX event sequence (content, lexical, DTD and declaration events, namespace mappings and attributes, with adjacent character data joined) that the document determines. This holds for every way the input stream splits its bytes into reads, for documents of any size relative to internal buffers, and for each of the Expat, libxml2 and Xerces parsers.",
  ["inputs", "fault_sequences", "configurations"],
  "every well-formed document, every split of its bytes into short reads at arbitrary offsets, every parser back end and namespace feature setting",
  "The tests parse small string literals from a stringstream, which always delivers everything in one read; no test makes a read short, crosses an internal buffer boundary or compares back ends.",
  [W+"saxexpat.hpp", W+"saxlibxml2.hpp", W+"saxxerces.hpp", "include/SAX/InputSource.hpp", "include/SAX/IStreamHandle.hpp", "include/SAX/helpers/NamespaceSupport.hpp", "include/SAX/helpers/AttributesImpl.hpp"],
  [("read loop feeding the push parser", W+"saxexpat.hpp do_parse"), ("read loop / chunked push", W+"saxlibxml2.hpp parse"), ("BinInputStream adaptor", W+"saxxerces.hpp readBytes"), ("namespace context stack", "include/SAX/helpers/NamespaceSupport.hpp")],
  ["ContentHandler/LexicalHandler/DTDHandler/DeclHandler/ErrorHandler callbacks"])
p("P02", "Broken input is never reported as a complete document, and parsing always ends",
  "If the input is cut short, damaged so that it is not well-formed, or its stream fails part-way, parse() ends after a bounded amount of work and the failure is visible: a fatal error reaches the error handler or an exception leaves parse(). The element, text and other content events reported before that are a prefix of those of the intact document.",
  ["inputs", "crash_points", "fault_sequences"],
  "every truncation offset, every stream failure position and style (bad state, exception, exception mask set), every one of the generated well-formedness violations, every delivery split, each back end",
  "Tests feed a handful of malformed literals; no test makes a stream fail while it is being read, so the not-at-eof-but-failed path never runs.",
  [W+"saxexpat.hpp", W+"saxlibxml2.hpp", W+"saxxerces.hpp"],
  [("do_parse loop and reportError", W+"saxexpat.hpp"), ("parse loop and error reporting", W+"saxlibxml2.hpp"), ("readBytes and error forwarding", W+"saxxerces.hpp")],
  ["ErrorHandler::fatalError", "exceptions leaving parse()", "ContentHandler callbacks", "instrumented step count"])
p("P03", "A parser object is as good as new after any earlier parse",
  "Whatever happened during earlier parses with the same parser object - success, malformed input, failing or truncated stream, unresolvable source, or an exception thrown by one of the client's handlers - a later parse() of a well-formed document with it reports exactly what a newly constructed parser with the same settings reports. Features, properties and handlers set before stay in force, and features may be changed between parses.",
  ["histories", "fault_sequences"],
  "every history of parses ended by any of those outcomes at any point, each back end",
  "Tests construct a parser per parse; none aborts a parse from a handler and then parses again.",
  [W+"saxexpat.hpp", W+"saxlibxml2.hpp", W+"saxxerces.hpp", "include/SAX/helpers/NamespaceSupport.hpp"],
  [("state reset around parse", W+"saxexpat.hpp parse"), ("state reset around parse", W+"saxlibxml2.hpp parse"), ("state reset around parse", W+"saxxerces.hpp parse")],
  ["event logs of successive parses", "getFeature/setFeature"],
  [("nsSupport_", "open namespace contexts", W+"saxexpat.hpp"), ("parsing_", "parse in progress flag", W+"saxexpat.hpp")])
p("P04", "A handler's exception leaves parse() intact, stops the events and leaks nothing",
  "When a client's handler (content, lexical, DTD, declaration, entity resolver or error handler) throws at any event, parse() exits with that same exception, no further handler is called, and no memory is leaked or accessed invalidly.",
  ["crash_points", "fault_sequences", "inputs"],
  "every handler kind, every event index, every document, delivery split and back end",
  "No test throws from a handler other than reporting a parse error, and none observes resources.",
  [W+"saxexpat.hpp", W+"saxlibxml2.hpp", W+"saxxerces.hpp"],
  [("C callback trampolines", W+"saxexpat.hpp and src/SAX/wrappers/saxexpat.cpp"), ("C callback trampolines", "src/SAX/wrappers/saxlibxml2.cpp"), ("adaptor callbacks", W+"saxxerces.hpp")],
  ["exception identity at parse()", "allocator accounting", "callbacks after the throw"])
p("P05", "External entities come from the resolver, whole or reported as failed",
  "With external entities enabled, the content of each external entity reference (and of an external DTD subset) is exactly what the client's entity resolver supplies for its public and system identifiers, spliced at the reference, however those streams deliver their bytes. If the resolver's stream is truncated, malformed, failing, or the resolver throws, the failure surfaces as a fatal error or exception, content events stay a prefix of the fault-free ones, and parsing ends after bounded work.",
  ["inputs", "fault_sequences", "crash_points"],
  "every document with external entities, nesting of entities, delivery split of each stream, and fault in any of them (Expat and Xerces back ends)",
  "Tests resolve one or two entities from string streams that never fail.",
  [W+"saxexpat.hpp", W+"saxxerces.hpp", "include/SAX/helpers/InputSourceResolver.hpp", "src/SAX/helpers/InputSourceResolver.cpp"],
  [("externalEntityRefHandler", W+"saxexpat.hpp"), ("resolveEntity adaptor", W+"saxxerces.hpp"), ("URI scheme registry", "src/SAX/helpers/InputSourceResolver.cpp")],
  ["ContentHandler events", "EntityResolver calls", "ErrorHandler"])
p("P06", "SAX filters keep no residue: output depends only on the current document",
  "For every way the incoming character data is split into events, TextCoalescer reports exactly one joined event per text run, WhitespaceStripper reports each text run with its whitespace normalised whatever the split, NamespaceTracker and XMLBaseTracker answer at every element event with the bindings and base in scope, and every filter passes all other events through unchanged and in order. After a document is abandoned at any point, the same filter chain fed a new document behaves as a new chain does.",
  ["inputs", "histories", "crash_points"],
  "every event sequence, every split of character data, every abandonment point followed by another document, every chain of filters",
  "Tests run each filter once over one literal document that is always completed.",
  ["include/SAX/filter/TextCoalescer.hpp", "include/SAX/filter/WhitespaceStripper.hpp", "include/SAX/filter/NamespaceTracker.hpp", "include/SAX/filter/XMLBaseTracker.hpp", "include/SAX/helpers/XMLFilterImpl.hpp", "include/SAX/helpers/XMLBaseSupport.hpp"],
  [("text buffer", "include/SAX/filter/TextCoalescer.hpp"), ("namespace stack", "include/SAX/filter/NamespaceTracker.hpp"), ("base stack", "include/SAX/helpers/XMLBaseSupport.hpp")],
  ["events downstream of the chain", "namespace and base queries during the parse"])
p("P07", "SAX2DOM builds the document it was given, whatever happened before",
  "For a well-formed document, the DOM tree built by the SAX2DOM parser has exactly the document's elements, attributes, text, CDATA, comments, processing instructions and doctype, for every split of the input and after any history of earlier successful, failed or aborted parses on the same parser object. A failed parse is reported, and documents obtained earlier stay unchanged and usable after later parses and after the parser is gone.",
  ["inputs", "histories", "fault_sequences"],
  "every document, delivery split, and history of parses with I/O, well-formedness and handler failures",
  "Tests build one small document per parser and never reuse it after failure.",
  ["include/DOM/SAX2DOM/SAX2DOM.hpp", "include/DOM/SAX2DOM/DocumentTypeImpl.hpp"],
  [("document under construction and current node", "include/DOM/SAX2DOM/SAX2DOM.hpp")],
  ["DOM API walk of getDocument()", "ErrorHandler"])
p("P08", "Serialised output is exact up to the sink's failure and never outlives it",
  "SAX Writer, PYXWriter and DOM stream output hand the sink exactly the bytes of the serialised document in order; when the sink fails at any byte, what it received is a prefix of those bytes and the stream reports the failure. Later output of any document to a good stream is unaffected by an earlier failure, and parsing what the SAX Writer (without indentation) or DOM stream output wrote gives the original content back.",
  ["inputs", "crash_points", "histories"],
  "every document, every sink failure position and style (bad state or exception), every later use of the writer or stream",
  "Tests write a few literals to a stringstream, which cannot fail.",
  ["include/SAX/filter/Writer.hpp", "include/SAX/filter/PYXWriter.hpp", "include/DOM/io/Stream.hpp", "include/XML/escaper.hpp"],
  [("prefix stack kept in the ostream", "include/DOM/io/Stream.hpp"), ("open-tag and indent state", "include/SAX/filter/Writer.hpp")],
  ["bytes accepted by the sink", "stream state", "re-parse of the output"])
p("P09", "Character-conversion streams are lossless or report failure",
  "Text that the target encoding can hold, pushed through the converting stream adaptors and string streams (UTF-8, UCS-2/UTF-16 in both byte orders, ISO-8859-1, base64, rot13), comes out on the other side as exactly the conversion of the whole text, however it is split into writes, reads, flushes and short transfers by the underlying stream (for base64 a flush closes the current group with padding), and writing then reading back is the identity. If the underlying stream fails or refuses, the bytes it accepted are a prefix of the right output, the failure is visible in the stream state after flush, and nothing is lost or repeated if the stream is used on once the device has recovered. A character the encoding cannot hold comes out as '?' (ISO-8859-1) or fails visibly (UTF-16), the rest of the text unharmed. Input cut off in the middle of a character yields the complete characters before it and then ends.",
  ["inputs", "fault_sequences", "crash_points"],
  "every text, every sequence of write/read sizes and flush points, every short-transfer pattern and failure position of the underlying stream",
  "Tests convert a few short literals in one write and flush.",
  ["include/io/convert_adaptor.hpp", "include/io/convertstream.hpp", "include/convert/*.hpp", "src/convert/*.cpp", "src/convert/impl/*.cpp"],
  [("buffer grow/convert/flush", "include/io/convert_adaptor.hpp"), ("partial conversion handling", "src/convert/impl/*.cpp")],
  ["bytes at the underlying stream", "characters read back", "stream state"])
p("P10", "Socket streams move exact bytes and HTTP resolution always ends",
  "Over a TCP connection that fragments, delays, interrupts or drops at any byte, a socket stream delivers exactly the bytes the peer sent, in order, until end of stream, and the peer receives a prefix of what was written - all of it if flush succeeded - with failures visible in the stream state. Resolving an http: URI does work bounded by what the server sends, for any server behaviour: it sends one complete request and yields a stream of exactly the bytes that follow the response headers if the headers arrive complete, and nothing (no local file either) if they do not or the connection cannot be made; every connection it opens is closed.",
  ["fault_sequences", "inputs", "crash_points"],
  "every fragmentation of send and recv, EINTR, reset, refusal and close at any byte, every response including malformed or truncated headers",
  "No test opens a socket: it needs a misbehaving peer.",
  ["include/io/socket_stream.hpp", "src/SAX/helpers/InputSourceResolver.cpp"],
  [("socket buffer read/write", "include/io/socket_stream.hpp"), ("header skipping", "src/SAX/helpers/InputSourceResolver.cpp httpResolver")],
  ["simulated network byte log", "stream contents and state", "open descriptor count"])
p("P11", "The DOM tree equals its model after any history; failed calls change nothing",
  "After any sequence of DOM mutations by any number of clients on any number of documents - insert, append, replace, remove, clone, import, split, normalize, attribute and character-data edits, fragments included - the trees seen through the API equal those of a simple reference model, with parent, child, sibling, owner and document-element links consistent. A call that throws a DOMException throws the one the DOM specification requires and leaves every tree unchanged.",
  ["histories", "inputs"],
  "every interleaving of operations from several clients over a shared pool of nodes, including illegal ones",
  "Tests exercise each operation in isolation from a fixed start state, and hardly ever inspect the trees after a call fails.",
  ["include/DOM/Simple/NodeImpl.hpp", "include/DOM/Simple/DocumentImpl.hpp", "include/DOM/Simple/ElementImpl.hpp", "include/DOM/Simple/AttrMap.hpp", "include/DOM/Simple/AttrImpl.hpp", "include/DOM/Simple/TextImpl.hpp", "include/DOM/Simple/CharacterDataImpl.hpp"],
  [("child list and hierarchy checks", "include/DOM/Simple/NodeImpl.hpp"), ("document element and doctype slots", "include/DOM/Simple/DocumentImpl.hpp"), ("attribute map", "include/DOM/Simple/AttrMap.hpp")],
  ["full tree walk through the public API after every step"])
p("P12", "Live lists, maps and tree walkers always show the current tree",
  "At any point in any history of mutations, child lists, getElementsByTagName(NS) lists, attribute maps and id lookup obtained earlier give exactly what a fresh query would, and a TreeWalker's moves from its current node give the node the DOM Traversal definition gives on the current tree for its root, whatToShow and filter. Out-of-range access returns null and never touches invalid memory.",
  ["histories", "inputs"],
  "every interleaving of mutations with queries through views created at any earlier time, every filter and whatToShow",
  "Tests query lists right after creating them on static trees; TreeWalker tests only call nextNode on static trees.",
  ["include/DOM/Simple/ElementByTagImpl.hpp", "include/DOM/Simple/NodeImpl.hpp", "include/DOM/Simple/NamedNodeMapImpl.hpp", "include/DOM/Traversal/TreeWalkerImpl.hpp", "include/DOM/Simple/DocumentImpl.hpp"],
  [("change counter and cached node list", "include/DOM/Simple/ElementByTagImpl.hpp"), ("walker navigation", "include/DOM/Traversal/TreeWalkerImpl.hpp")],
  ["results of list/map/walker calls versus the model"])
p("P13", "DOM objects live exactly as long as something refers to them",
  "For any order in which handles to nodes, documents, lists, maps, walkers and events are copied, assigned and dropped, every object reachable through a held handle stays valid and unchanged, nothing is accessed after being freed, and once all handles are dropped all memory is released.",
  ["histories", "schedules"],
  "every interleaving of handle copies and drops with tree mutations and parses, under both address-reusing and non-reusing heaps",
  "Tests keep the document handle alive throughout and do not observe the heap.",
  ["include/DOM/Proxy.hpp", "include/DOM/Simple/DocumentImpl.hpp", "include/DOM/Simple/NodeImpl.hpp", "include/DOM/Node.hpp"],
  [("reference counts and orphan tracking", "include/DOM/Simple/DocumentImpl.hpp"), ("proxy assignment", "include/DOM/Proxy.hpp")],
  ["simulated heap: poisoned frees, live-block accounting"])
p("P14", "DOM events visit the right listeners once each, in order, whatever listeners do",
  "When an event is dispatched at an event target (a SimpleDOM node class with EventTargetImpl mixed in), each listener registered for its type is called once: capturing listeners on the ancestors from the root down, listeners on the target, and, if the event bubbles, listeners on the ancestors back up; listeners of one target in order of registration; ancestors that are not event targets are passed over. Each call sees the right phase, target and current target. stopPropagation in any phase keeps the event from moving to another target, and dispatchEvent answers whether no listener prevented the default action of a cancelable event. A listener may add or remove listeners, destroy removed ones, move nodes, dispatch another event, drop every handle or throw: there is no invalid access, listeners removed before their turn are not called, and later dispatches start afresh with the listeners then registered.",
  ["histories", "crash_points"],
  "every tree, set of listeners, and re-entrant or throwing behaviour of listeners at any call",
  "There is no test of event dispatch at all.",
  ["include/DOM/Simple/EventTargetImpl.hpp", "include/DOM/Simple/EventImpl.hpp", "include/DOM/Events/EventTarget.hpp"],
  [("dispatch loop over listener maps", "include/DOM/Simple/EventTargetImpl.hpp")],
  ["listener call log versus a reference dispatcher"])
p("P15", "Taggle turns any bytes into one balanced event stream, however delivered",
  "For any byte sequence, however its stream splits or ends it, Taggle's parse ends after bounded work and reports exactly one document with properly nested start/end element and prefix-mapping events, the same for every split of the input and regardless of what the same Taggle object parsed before, completely or abandoned by a handler exception.",
  ["inputs", "fault_sequences", "histories"],
  "every input, every delivery split, truncation point and stream failure, and every history of earlier parses",
  "Tests parse sample HTML files in one piece with a new parser each.",
  ["include/Taggle/impl/Parser.hpp", "include/Taggle/impl/html/HTMLScanner.hpp", "include/Taggle/impl/Element.hpp"],
  [("per-parse set-up", "include/Taggle/impl/Parser.hpp setup"), ("scanner state machine", "include/Taggle/impl/html/HTMLScanner.hpp scan")],
  ["SAX events", "instrumented step count"])
p("P16", "Running a compiled stylesheet leaves no trace on later runs",
  "Each execution of a compiled stylesheet produces exactly the output and messages that a freshly compiled copy with a fresh sink produces for the same source document and parameters, whatever executions (on this or other documents, completed, or aborted by xsl:message terminate, a dynamic error, a failing document() load or a failing output stream) came before on the same stylesheet and sink, and also when executions of several stylesheets are interleaved or nested.",
  ["histories", "fault_sequences", "crash_points"],
  "every sequence of executions with failures injected at any output byte or instruction, documents mutated or freed between executions",
  "Tests compile each stylesheet, execute it once and throw it away.",
  ["include/XSLT/impl/xslt_compiled_stylesheet.hpp", "include/XSLT/impl/xslt_execution_context.hpp", "include/XSLT/impl/xslt_output.hpp", "include/XSLT/impl/xslt_sink.hpp", "include/XSLT/impl/xslt_key.hpp", "include/XSLT/impl/xslt_variable_stack.hpp"],
  [("execution context", "include/XSLT/impl/xslt_execution_context.hpp"), ("sink state", "include/XSLT/impl/xslt_output.hpp"), ("per-document key tables", "include/XSLT/impl/xslt_key.hpp")],
  ["output bytes and messages of each execution"])
p("P17", "A stylesheet compiles whole, or compilation fails with a reason",
  "Compiling a stylesheet yields the same behaviour for every split of the delivery of the stylesheet and of the documents it includes or imports. If the stylesheet or any included or imported document is missing, truncated, malformed or its stream fails, compile() returns no stylesheet and a non-empty error; it never returns a partly compiled one, and the compiler stays usable.",
  ["fault_sequences", "crash_points", "inputs"],
  "every include/import graph, delivery split, and fault in any of the streams",
  "Tests compile intact local files only.",
  ["include/XSLT/impl/xslt_stylesheet_compiler.hpp", "include/XSLT/impl/handler/xslt_include_handler.hpp", "include/XSLT/impl/xslt_stylesheet_parser.hpp"],
  [("compile", "include/XSLT/impl/xslt_stylesheet_compiler.hpp"), ("include_stylesheet", "include/XSLT/impl/handler/xslt_include_handler.hpp")],
  ["result of compile(), error(), and output of the compiled stylesheet"])
p("P18", "Compiled XPath expressions are reusable and independent of each other",
  "Evaluating a compiled XPath expression or match gives the same value as a freshly compiled one for the same node, variables and functions, whatever evaluations - including ones abandoned because a variable, function or namespace resolver threw - or compilations happened before or are in progress, and node-sets come in document order of the tree as it is at evaluation time.",
  ["histories", "fault_sequences"],
  "every interleaving of compilations, evaluations (nested ones from inside resolvers too), resolver failures and document mutations",
  "Tests compile and evaluate each expression once on a static document.",
  ["include/XPath/impl/xpath_expression.hpp", "include/XPath/impl/xpath_parser.hpp", "include/XPath/impl/xpath_object.hpp", "include/XPath/impl/xpath_resolver_holder.hpp", "include/XPath/impl/xpath_execution_context.hpp"],
  [("compilation context and factories", "include/XPath/impl/xpath_parser.hpp"), ("execution context", "include/XPath/impl/xpath_execution_context.hpp")],
  ["expression values", "resolver call log"])
p("P19", "Threads using their own objects do not affect each other",
  "Threads that each use only their own parsers, filters, documents, XPath compilers and expressions, stylesheets and streams get exactly the results each gets when run alone, for every interleaving, with no unsynchronised conflicting access to shared memory.",
  ["schedules", "inputs"],
  "every interleaving of the threads' memory accesses",
  "All tests are single-threaded.",
  ["include/XPath/impl/xpath_parser.hpp", "include/XPath/impl/xpath_expression.hpp", "include/Arabica/StringAdaptor.hpp", W+"saxxerces.hpp", W+"saxlibxml2.hpp", "include/DOM/io/Stream.hpp", "include/DOM/Simple/DOMImplementation.hpp"],
  [("function-local statics and static tables", "include/XPath/impl/xpath_parser.hpp"), ("library initialisers", W+"saxxerces.hpp")],
  ["per-thread event logs versus solo runs", "simulated happens-before race detector"])
p("P20", "Running out of memory at any allocation is survivable",
  "If any allocation Arabica itself makes fails - one, or that one and every later one until the operation ends - while it parses (SAX with Expat, libxml2 or Xerces; SAX2DOM; Taggle), builds or changes a DOM, serialises (Writer, DOM stream output), compiles or evaluates an XPath expression, or compiles or executes a stylesheet, then nothing is accessed invalidly and the process is not terminated, and the operation either gives exactly what it gives without the failure, or throws, or reports an error; it never silently gives something else, and the events or output it had delivered by then are the beginning of what it would have delivered. The same objects then work again: the operation repeated with memory available gives what it gives on fresh objects. A single DOM operation that throws leaves the tree with consistent links and otherwise exactly as it was before, or as it is after success (normalize(), and inserting or replacing with a fragment, which work child by child, may stop half-way, with consistent links). Memory that is lost to the failure (leaks) is not part of it, nor are allocations made inside Expat, libxml2, Xerces or Boost.Spirit's grammar construction.",
  ["crash_points", "fault_sequences"],
  "every allocation index, single or from there on, in every generated operation and operation sequence",
  "No test makes an allocation fail.",
  ["include/DOM/Simple/*.hpp", "include/DOM/SAX2DOM/SAX2DOM.hpp", W+"saxexpat.hpp", W+"saxlibxml2.hpp", W+"saxxerces.hpp", "include/SAX/filter/Writer.hpp", "include/Taggle/*.hpp", "include/XPath/impl/*.hpp", "include/XSLT/impl/*.hpp"],
  [("exception safety of each operation", "include/DOM/Simple/"), ("state restored on the way out", "include/XSLT/impl/xslt_compiled_stylesheet.hpp"), ("parsers reusable after any end", W+"saxexpat.hpp")],
  ["outcome and result against the fault-free execution", "tree walks and dumps before and after", "repetition on the same objects"])
p("P21", "Results do not depend on addresses or leftover memory contents",
  "The same sequence of calls with the same inputs gives the same results - events, trees, output, values, errors - whatever values fresh memory happens to contain and whatever addresses the allocator happens to return. (By nature address-dependent, and excluded: the relative order of nodes that belong to different trees, and the text of generate-id().)",
  ["configurations", "histories"],
  "every heap fill pattern and address order, for each generated workload over parsers, DOM, serialisers, XPath and XSLT",
  "A test run sees one heap layout.",
  ["include/DOM/Simple/DocumentImpl.hpp", "include/DOM/SAX2DOM/SAX2DOM.hpp", "include/io/convert_adaptor.hpp", "include/XSLT/impl/xslt_key.hpp", "include/XPath/impl/xpath_object.hpp"],
  [("constructors initialise every member", "include/"), ("no ordering by pointer", "include/XPath/impl/xpath_object.hpp")],
  ["result logs under paired heaps"])
p("N01", "XPath 1.0 evaluation follows the Recommendation",
  "For every expression, node and variable binding, the value of an XPath expression is the one the XPath 1.0 Recommendation defines.",
  ["inputs", "programs"], "every expression and document", "Tests cover a list of expressions.",
  ["include/XPath/impl/*.hpp"], [("expression evaluation", "include/XPath/impl/")])
p("N02", "XSLT 1.0 instructions produce the result the Recommendation defines",
  "For every stylesheet and source document in the supported subset, the result tree is the one the XSLT 1.0 Recommendation defines.",
  ["inputs", "programs"], "every stylesheet and document", "Tests cover the OASIS suite samples.",
  ["include/XSLT/impl/*.hpp"], [("instruction execution", "include/XSLT/impl/")])
p("N03", "URI references resolve as RFC 2396 defines",
  "For every base URI and reference, the resolved URI is the one RFC 2396 defines.",
  ["inputs"], "every pair of URI references", "Tests cover a list of pairs.",
  ["include/io/uri.hpp", "src/io/uri.cpp"], [("URI parse and combine", "src/io/uri.cpp")])
p("N04", "Character classification and escaping follow XML 1.0",
  "For every character, the name, letter, digit and space classifications and the text and attribute escapes are those of XML 1.0.",
  ["inputs"], "every character", "Tests check samples.",
  ["include/XML/XMLCharacterClasses.hpp", "src/XML/XMLCharacterClasses.cpp", "include/XML/escaper.hpp"], [("class tables", "src/XML/XMLCharacterClasses.cpp")])

if __name__ == "__main__":
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
