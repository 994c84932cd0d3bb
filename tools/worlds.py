# Which world decides which property, how it is built, and what a run is.
REAL_SAX = 'real: Arabica wrappers, Expat, libxml2, Xerces-C; simulated: byte streams, client handlers, heap, clock'
WORLDS = {
 'domparse': dict(sources=['worlds/domparse.cpp', 'sim/warm.cpp'], components='real: SAX2DOM, DOM, TextCoalescer, Arabica wrappers, Expat, libxml2, Xerces-C; simulated: streams, error handler, entity resolver, heap'),
 'convert': dict(sources=['worlds/convert.cpp'], components='real: convert_adaptor, convertstream, all codecvt facets; simulated: sinks, sources, clients, heap'),
 'dom': dict(sources=['worlds/dom.cpp'], components='real: SimpleDOM, SAX2DOM, DOM Traversal, Expat wrapper and Expat (to build one document); simulated: clients, node filters, heap'),
 'events': dict(sources=['worlds/events.cpp', 'worlds/dom_life.cpp'], components='real: SimpleDOM nodes and EventTargetImpl, EventImpl, MutationEventImpl; simulated: listeners, clients, heap, clock'),
 'filter': dict(sources=['worlds/filter.cpp'], components='real: all SAX filters, NamespaceSupport, XMLBaseSupport, URI, Expat wrapper and Expat; simulated: event source, client handlers, streams, heap'),
 'output': dict(sources=['worlds/output.cpp', 'sim/warm.cpp'], opt='-O1', components='real: SAX Writer, PYXWriter, DOM stream output, escapers, SAX2DOM, DOM, Expat wrapper and Expat; simulated: sinks, input streams, client handlers, heap'),
 'socket': dict(sources=['worlds/socket.cpp', 'sim/warm.cpp'], components='real: socket_stream, InputSourceResolver, URI, Expat and libxml2 wrappers, Expat, libxml2; simulated: socket and resolver calls, servers, clients, heap'),
 'taggle': dict(sources=['worlds/taggle.cpp'], components='real: Taggle, HTMLScanner, HTML schema; simulated: streams, client handlers, entity resolver, heap'),
  'xpath': dict(sources=['worlds/xpath.cpp'], opt='-O1', components='XPath engine and grammar (Boost.Spirit), SimpleDOM: real; namespace, variable and function resolvers: simulated'),
 'xslt': dict(sources=['worlds/xslt.cpp'], opt='-O1', components='real: XSLT compiler, executor and sinks, XPath, SAX2DOM, SimpleDOM, SAX filters, Expat wrapper and Expat; simulated: stylesheet and document streams, URI scheme resolver, output and message streams, heap'),
 'address': dict(sources=['worlds/xslt.cpp', 'worlds/xpath.cpp', 'worlds/output.cpp', 'worlds/domparse.cpp', 'worlds/filter.cpp', 'worlds/sax.cpp', 'worlds/sax_ext.cpp', 'worlds/dom.cpp', 'worlds/convert.cpp', 'worlds/events.cpp', 'worlds/dom_life.cpp', 'worlds/taggle.cpp', 'worlds/address.cpp', 'sim/warm.cpp'], opt='-O1', components='the whole library as in the other worlds: real; heap, stack contents, streams, clients, resolvers: simulated'),
 'oom': dict(sources=['worlds/oom.cpp', 'worlds/oom_dom.cpp', 'worlds/oom_xpath.cpp', 'worlds/oom_xslt.cpp', 'sim/warm.cpp'], flags=['-I{here}/sim/boost_oom', '-include', '{here}/sim/core.hpp'], opt='-O1', components='the whole library: real; every allocation of its own, streams, clients: simulated'),
 'threads': dict(sources=['worlds/threads.cpp', 'sim/threads.cpp'], bare=['sim/threads.cpp'], san='thread', opt='-O1', components='real: wrappers, Expat, libxml2, Xerces-C, filters, SAX2DOM, SimpleDOM, XPath, XSLT, conversion streams, Taggle, on real threads; simulated: thread scheduling, mutexes, static-initialisation guards, streams, heap'),
 'sax': dict(sources=['worlds/sax.cpp', 'worlds/sax_ext.cpp', 'sim/warm.cpp'], opt='-O1', components=REAL_SAX),
}
WORLD_OF, RULES = {}, {}
def prop(id, world, technique, note, rule, **kw):
    WORLD_OF[id] = world
    RULES[id] = dict(technique=technique, note=note, rule=rule, **kw)

prop('P01', 'sax', 'seeded search over documents and stream delivery schedules of the real parsers, against the document model that generated the input',
  'Real wrappers and parser libraries in one process; streams, handlers, heap and clock simulated. Samples documents and splits; does not enumerate them. libxml2 and Xerces DTD declaration events are not compared (their text is back-end specific).',
  'A run draws a document from the model (elements, namespaces, attributes, text, CDATA, comments, PIs, DTD, internal entities, '
  'encodings, sizes around internal buffer boundaries), a back end, features, a delivery split and a heap layout. It is counted as distinct by the hash of '
  '(document bytes, split, back end, features).')

prop('P02', 'sax', 'seeded search over truncations, damage and stream failures, with a step budget for termination',
  'Real wrappers and parser libraries; streams and handlers simulated. Termination is judged by an instrumented step budget far above any intact parse.',
  'A run draws a document, then a truncation offset, a well-formedness violation, or a stream failure (position, style, exception mask, or bad before the parse) and a delivery split. '
  'Distinct by (damaged bytes, failure position and style, split, back end, features).')
prop('P03', 'sax', 'seeded search over histories of parse outcomes on one parser object, each parse judged against the document model',
  'Real wrappers and parser libraries. Histories of up to five parses; a quarter of the runs repeat one parse five times and watch the simulated heap.',
  'A run draws a history of parses (intact, truncated, malformed, failing stream, handler exception at a drawn callback, unresolvable source, settings changed) ending in an intact one. '
  'Counted when at least one earlier parse was upset; distinct by the documents, outcomes and positions.')
prop('P04', 'sax', 'seeded injection of exceptions at every callback of a parse, with heap accounting over repetitions',
  'Real wrappers and parser libraries; every callback index of the drawn document can be the one that throws; memory judged by live blocks of the simulated heap (C libraries included, Xerces through operator new).',
  'A run draws a document (a quarter of them damaged), a callback index and an exception type; the same aborted parse runs three times. Distinct by (bytes, callback, exception type, split, back end).')

prop('P05', 'sax', 'seeded search over external entity graphs, delivery schedules of every stream and faults in one of them, against the document model',
  'Real Expat and Xerces wrappers and libraries; entity resolver, registered URI scheme resolver and all streams simulated. The libxml2 wrapper does not route entities through the resolver and is not covered. Entity start/end notifications are not compared.',
  'A run draws a document, up to three external entities that refer to each other and perhaps an external DTD subset, an encoding and delivery split for each, and in half of the runs one fault '
  '(cut, malformed, failing stream, exception from the resolver, unresolvable, recursive); half of the faulty runs parse again with the fault gone. Distinct by all bytes, splits and the fault.')

prop('P06', 'filter', 'seeded search over filter chains, event sequences, character splits and abandoned documents, against a model of each filter and a fresh chain',
  'Real filters, narrow and wide; a simulated event source replays model documents and gives up or throws at any event, a quarter of the runs use real Expat. TextOnly does not compile in this tree and is not covered.',
  'A run draws a chain of one to four filters, up to three earlier documents (completed or abandoned at a drawn event by the source or by an exception of the client) and a last complete one, with the split of every text. '
  'Distinct by chain, events, splits and abandonment points.')

prop('P07', 'domparse', 'seeded search over histories of parses (intact, broken, failing streams, throwing clients) on one SAX2DOM parser, each tree judged against the document model',
  'Real SAX2DOM and DOM over the real wrappers and libraries of all three back ends. Entity reference nodes for entities without content are not compared; libxml2 doctype contents are not compared.',
  'A run draws a back end and up to four documents, each parsed intact or with one fault on the same parser object, with delivery splits; earlier documents are read and modified again after later parses and after the parser is destroyed. '
  'A fifth of the runs repeat one parse and watch the simulated heap. Distinct by bytes, faults and splits.')

prop('P08', 'output', 'seeded search over documents, sinks failing at every unit in every style, and histories of output on one writer and stream, against a fresh writer and a parse of the output',
  'Real Writer, PYXWriter and DOM operator<<, narrow and wide. Entity reference nodes, and content XML cannot carry (CR in CDATA, "--" in comments), are not generated.',
  'A run draws documents (parsed, or built through the DOM with conflicting prefixes), a writer, an indent, and a history of outputs on one stream with the sink failing at drawn positions (short count, end, exception; with and without '
  'stream exceptions). Counted when a sink failed; distinct by the bytes of the output and the failures.')

prop('P11', 'dom', 'seeded search over interleaved histories of DOM calls by several clients, every tree compared with an executable reference model after every call',
  'Real SimpleDOM through its public interface, narrow strings. Up to four documents (one parsed with a DTD: default attributes, entity references, IDs) and histories of up to 45 calls; a failed call is one that throws DOMException. Removing a document type from its document is not exercised.',
  'A run draws the documents, a heap layout and a history of calls (create, insert, replace, remove, clone, import, split, normalize, attribute, value, prefix and document calls, one in eight or so forbidden). '
  'Counted when it reached its end; distinct by the parent and child types of the moves made and the calls drawn.')
prop('P12', 'dom', 'seeded search over histories of DOM calls with lists, maps and walkers obtained at drawn points and looked at at others, against the model trees and an independent walker',
  'Real SimpleDOM and DOM Traversal. Filters are simulated and may throw. Where the current node is outside the walker root or inside a rejected subtree, which the definition leaves open, only consistency is checked. NodeIterator is not implemented by the library.',
  'A run draws a history as for P11 with up to twelve views held at a time: child lists, tag lists, attribute maps, id look-ups and tree walkers (whatToShow, filter, entity expansion, moves, jumps). '
  'Distinct by the calls, view kinds, moves and node types.')
prop('P14', 'events', 'seeded search over dispatches whose listeners add, remove, stop, move nodes, dispatch, throw and drop handles, every call compared with a reference dispatcher',
  'Real EventTargetImpl, EventImpl and MutationEventImpl mixed into the nodes of SimpleDOM as a user mixes them in (the library has no such nodes of its own). A listener removed during a dispatch is not put back on the same node before the dispatch ends, and an event is not dispatched again while its dispatch is going on. DocumentEvent does not compile and is not covered.',
  'A run draws one or two trees with targets and non-targets, listeners, events and a series of dispatches; each call of a listener draws what it does. Counted when a listener was called; distinct by the sequence of phases, depths and listener actions.')
prop('P13', 'events', 'seeded search over histories of handle copies, assignments, drops and tree changes on a heap that poisons freed memory, each history run three times to see that nothing stays behind',
  'Real SimpleDOM, SAX2DOM, TreeWalker, Event classes, Expat wrapper and Expat, narrow strings. A node is purged only when no other handle refers into it (purging destroys the node whoever holds it). The handle of a null map is not used.',
  'A run draws a heap layout, up to eight slots for handles and a history of up to 60 operations (parses whole, broken or thrown out of, creation, navigation, assignment to itself and to what is reachable only through itself, casts, lists, maps, walkers, events, moves, failures). '
  'After each, every object held by an untouched slot must read as before; at the end nothing more may be live in the third round than in the second. Distinct by the operations and which of them failed.')
prop('P09', 'convert', 'seeded search over texts, write and read sizes, flush points, device chunk sizes and device failures, output and input compared with independent encoders',
  'Real conversion adaptors, string streams and all nine facets. Text is limited to what both encodings hold, except that a character UTF-16 output does not support must be reported. For base64 each flush ends a group.',
  'A run draws a facet, a text (weighted towards the edges of the internal buffers), how it is written or read and how the device behaves (short transfers, refusal or exception at a drawn position, recovery, input cut off). Distinct by the facet, the fault and the sequence of calls.')
prop('P10', 'socket', 'seeded search over simulated connections that fragment, interrupt, refuse, reset and close at any byte, against the bytes each side sent',
  'Real socket streams, http: resolver and parsers; the socket and resolver calls are interposed, so no packet leaves the process. Narrow streams only (the wide instantiations do not compile). What the simulated peer has accepted counts as received.',
  'A run draws either a history of connections of one stream (writes, flushes, reads, put-backs, close, reopen; peers with drawn data, fragmentation, interruptions, resets, limits) or an http: resource with drawn headers, body, cut and failures, '
  'read through InputSourceResolver or parsed from its system id. Distinct by the operations, sizes and faults.')
prop('P15', 'taggle', 'seeded search over byte sequences, deliveries and histories of one Taggle object, against a new Taggle given everything at once and a nesting check',
  'Real Taggle (narrow strings); streams and handlers simulated. Content of the events is compared between executions, not with an HTML specification. Work is bounded by an instrumented step budget.',
  'A run draws feature settings, a byte sequence (tags, attributes, entities, declarations, damage, any bytes, deep nesting), up to three earlier parses on the same object (complete, failing stream, unresolvable, abandoned by a client exception at a drawn event) and a delivery. '
  'Distinct by bytes, history and delivery.')

prop("P16", 'xslt', 'seeded search over histories of executions with failing output, aborts and changing documents on one compiled stylesheet, each judged against a freshly compiled copy with a fresh sink',
  'Real XSLT, XPath, DOM and Expat. DOM sinks are used once (they collect their result); parameters set on the used stylesheet are set on the fresh copy too. Executions on several threads are not part of this property.',
  'A run draws a stylesheet (imports, includes, modes, keys, variables, messages, sorting, document()), up to three source documents and a history of executions with parameters, sinks, failures of the output or message stream at a drawn byte, '
  'missing document() files, document changes and replacements, and executions of a second stylesheet between or inside them; one run in six repeats one execution and watches the heap. Distinct by files, documents and history.')
prop('P17', 'xslt', 'seeded search over delivery splits and faults of a stylesheet and the files it includes and imports, with the behaviour of the intact delivery as reference',
  'Real stylesheet compiler, SAX filters, Expat wrapper and Expat; all files come from a simulated URI scheme.',
  'A run draws a stylesheet of up to six files and up to four compilations by one compiler, each with its delivery splits and perhaps one file missing, cut, unreadable from a drawn byte, or malformed at a drawn place; one run in five repeats one compilation and watches the heap. Distinct by files, splits and faults.')

prop('P18', 'xpath', 'seeded search over interleaved compilations, evaluations, resolver failures, nested use and document changes, each evaluation judged against a fresh compiler and, for one, a process of its own',
  'Real XPath engine and SimpleDOM, narrow strings. Order among the attributes and namespace nodes of one element is left open; a path ending in a reverse axis may come in reverse document order (the library marks such sets); an expression that is just a variable or an extension function gives what that supplied.',
  'A run draws one or two documents with detached trees, up to six texts (expressions, patterns, value templates, malformed ones) and a history: document changes, compilations by compilers that may be gone afterwards, evaluations at drawn nodes through each entry point, '
  'with a resolver throwing at a drawn call or using the engine from inside. Values kept from earlier are read again after every step. Distinct by texts, changes and steps.')

prop('P21', 'address', 'differential simulation: each drawn workload runs twice from the same tape under two simulated heaps (fill, address order, reuse) and stack contents, and the complete records must be equal',
  'Workloads are those of P01-P09 and P11-P18, real library code throughout. Excluded because they are by nature address-ordered: the relative order of nodes of different trees, and the text of generate-id(). Memory the C libraries obtain from malloc themselves is not varied, except Expat\'s.',
  'A run draws a workload, its whole tape and two heaps that differ in fill and in address order. Distinct by (workload, tape shape, orders).')

prop('P19', 'threads', 'seeded search over thread interleavings (real threads handed off one at a time at instrumented memory accesses) with a happens-before check of every pair of accesses and comparison with each thread run alone',
  'Compiled with thread instrumentation against the simulator\'s own runtime; the C libraries and the compiled part of libstdc++ are not instrumented, so they are scheduled only at callbacks and locks. At most three threads. Sharing one object between threads is not promised and not exercised.',
  'A run draws two or three threads with one or two pieces of work each (SAX with three back ends, filters, wide SAX, SAX2DOM, DOM editing, XPath, XSLT with import and document(), conversion streams, Taggle), whether everything was used before, and preemption points by number of accesses, with extra ones at static data. Distinct by (work, schedule).')
prop('P20', 'oom', 'seeded injection of allocation failures, one or all from a point on, at any allocation of an operation, against the fault-free execution of the same operation',
  'Real library code throughout; the operation is re-executed from the same drawn workload with the k-th of its n counted allocations failing. Allocations of Expat, libxml2, Xerces and Boost.Spirit grammar construction never fail (the last by a copy of one Boost header with a no-fail scope). Leaks are not judged. Expressions and stylesheets that are in error without any failure are skipped.',
  'A run draws one workload (SAX x3, SAX2DOM, Writer, Taggle, XPath, XSLT) and up to six allocation indices in it, each once or from there on, each followed by up to two repetitions on the same objects; or a sequence of up to 14 DOM operations applied in step to two trees, each with an allocation failing in one of them. Distinct by (workload result, indices).')
