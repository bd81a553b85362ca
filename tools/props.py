#!/usr/bin/env python3
"""Writes properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
C = 'src/cas/'; F = 'src/framework/'

p('P01', 'Feature values read back exactly as last written',
  'After any sequence of feature structure creations and value writes through the public API, every feature of every feature structure reads back exactly the value last written to it, for all primitive kinds, strings and references; a feature never written reads as zero, false, an empty string or an invalid feature structure. A write to one feature or feature structure never alters any other, however many objects and strings the CAS holds.',
  ['histories', 'inputs'], 'All type systems, all interleavings of createFS, clone and set*Value calls over all feature kinds and values (extreme numbers, NaN, empty and non-BMP strings), including heaps that grow over several pages.',
  'The unit tests write a handful of values to one fixed type system; aliasing of heap cells, offsets of inherited features and heap growth depend on the type system shape and on the whole history of writes.',
  [C+'featurestructure.cpp', C+'lowlevel_fsheap.cpp', C+'uima/lowlevel_fsheap.hpp', C+'uima/lowlevel_internal_heap.hpp', C+'uima/internal_fsvalue_accessors.hpp', C+'lowlevel_typesystem.cpp'],
  [('FeatureStructure get/set', C+'featurestructure.cpp: FeatureStructure::set*Value / get*Value'), ('heap cell layout', C+'uima/lowlevel_fsheap.hpp: FSHeap::getFeatureInternal / setFeatureInternal'), ('feature offsets', C+'lowlevel_typesystem.cpp: TypeSystem::computeApprop'), ('string heap', C+'uima/lowlevel_fsheap.hpp: FSHeap::addString')],
  [('iv_clTemporaryHeap', '32-bit cells holding feature structures', C+'uima/lowlevel_fsheap.hpp'), ('8/16/64-bit heaps', 'cells of byte, short, long and double arrays and of long and double features', C+'uima/lowlevel_fsheap.hpp')])

p('P02', 'Arrays and lists behave as typed sequences',
  'An array of any element kind keeps the size it was created with, returns at each index the value last stored there, and its bulk copies move exactly the requested range; an index or range outside the array raises a UIMA exception and touches nothing. A list of any element kind behaves as the sequence described by the addFirst, addLast, append, prepend, removeElement, setHead, setTail and moveToNext calls made on it, and asking an empty list for its head or tail, or making a list circular by appending, raises a UIMA exception.',
  ['histories', 'inputs'], 'All histories of operations on any number of arrays and lists of all nine array kinds and four list kinds, with all index and size values including zero and out of range ones.',
  'Tests use one short array and one short list of each kind; off-by-one bounds, storage shared between the 8, 16, 32 and 64-bit heaps and list surgery only show under mixed histories.',
  [C+'arrayfs.cpp', C+'listfs.cpp', C+'uima/arrayfs.hpp', C+'uima/listfs.hpp', C+'lowlevel_fsheap.cpp'],
  [('array access', C+'arrayfs.cpp: BasicArrayFS::get/set/copyToArray/copyFromArray'), ('list operations', C+'listfs.cpp: BasicListFS')])

p('P03', 'Ill-typed accesses are rejected and change nothing',
  'Reading or writing a feature that is not appropriate for the type of a feature structure, with an accessor of the wrong value kind, with a reference whose type the range does not subsume, or through an invalid (default constructed) feature structure, type or feature handle raises a UIMA exception, as does storing a string that is not an allowed value of a string subtype or creating a feature structure of an array or other final type. After the exception every value stored in the CAS is what it was before.',
  ['inputs', 'histories'], 'All combinations of feature structure type, feature, accessor and value over generated type systems, interleaved with legal writes.',
  'The matrix of types, features and accessors is far larger than the few negative cases tested, and a missing check shows up as silent corruption of a neighbouring cell.',
  [C+'featurestructure.cpp', C+'cas.cpp', C+'typesystem.cpp', C+'lowlevel_typesystem.cpp', C+'internal_fspromoter.cpp'],
  [('validity checks', C+'featurestructure.cpp: checkValidity / checkFeature / checkAppropFeature / checkNonBuiltinFeature / checkRangeIsString'), ('final types', C+'lowlevel_typesystem.cpp: TypeSystem::isCreatableType'), ('string subtypes', C+'featurestructure.cpp: FeatureStructure::setStringValue')])

p('P04', 'Type system queries agree with the declared hierarchy',
  'For any committed type system, subsumption is exactly the reflexive transitive closure of the declared supertypes, getSubTypes lists exactly the type and its descendants and getDirectSubTypes its children, and a type has exactly the features declared by it and its ancestors, found by base name and by full name with the declared range, introducing type, creator and multiple-reference flag. Types and features are found by the names they were declared with, unknown names give invalid handles, and getAllTypes and getAllFeatures list each once; a namespace lists and finds exactly the types whose names lie directly in it, and a short name is found in several namespaces exactly when one of them has it and no other.',
  ['inputs', 'configurations'], 'All generated type hierarchies (deep, wide, any declaration order, string subtypes, features redeclared identically in subtypes) built from descriptions and from XML.',
  'Tests query one small fixed hierarchy; inheritance of offsets, lookup by name and closure computations must hold for every tree and declaration order.',
  [C+'lowlevel_typesystem.cpp', C+'typesystem.cpp', F+'casdefinition.cpp', F+'typesystemdescription.cpp'],
  [('subsumption', C+'lowlevel_typesystem.cpp: TypeSystem::subsumes'), ('feature inheritance', C+'lowlevel_typesystem.cpp: computeApprop / getFeatureByBaseName'), ('type creation', F+'casdefinition.cpp: mergeType / mergeTypeSystem')])

p('P05', 'Merging type descriptions gives the union or is refused',
  'Creating a type system from descriptions that mention the same type several times, directly, through imports (including shared and circular imports) or through the delegates of an aggregate, yields each type once with the union of its features and allowed string values, independent of the order of the descriptions. It is refused with an error, never a crash or a partial type system, when two descriptions of one type disagree on the supertype or on the range of a feature, when a supertype or range is undeclared, when the supertypes form a cycle, or when a final type is extended.',
  ['inputs', 'configurations'], 'All generated families of overlapping type system descriptions, import graphs and aggregate nestings, consistent or with one planted conflict.',
  'The tests merge no conflicting descriptions at all; order independence and rejection need families of descriptions, not single ones.',
  [F+'casdefinition.cpp', F+'typesystemdescription.cpp', F+'taespecifierbuilder.cpp', F+'internal_aggregate_engine.cpp'],
  [('merge', F+'casdefinition.cpp: mergeType / mergeTypeSystem'), ('import resolution', F+'typesystemdescription.cpp: TypeSystemDescription::resolveImports'), ('description merge', F+'typesystemdescription.cpp: addTypeDescription / mergeFeatureDescriptions')])

p('P06', 'Indexes hold exactly the added structures in their defined order',
  'After any history of addFS and removeFS calls on a view, every index holds exactly the feature structures of its type (and subtypes) that were added and not removed: a sorted or bag index holds each addition, a set index holds one representative per type and key, the first added until a feature structure of that type and key is removed. Iterating an index, or the index restricted to a subtype, visits those feature structures in the order given by its keys (each ascending or descending, over int, float, string and the type priority), and find and getSize agree with it.',
  ['histories', 'configurations'], 'All histories of add, remove and query calls on generated index definitions (sorted, set, bag; multiple keys; any indexed type) and type systems with type priorities.',
  'Tests use a few fixed indexes and short add-only histories; caching of combined iterators, removal among equal keys and comparators depend on history and key structure.',
  [C+'lowlevel_indexrepository.cpp', C+'lowlevel_internal_indexes.cpp', C+'uima/lowlevel_internal_indexes.hpp', C+'lowlevel_indexcomparator.cpp', C+'uima/lowlevel_indexcomparator.hpp', C+'lowlevel_index.cpp', C+'fsindex.cpp', C+'fsindexrepository.cpp', C+'lowlevel_indexdefinition.cpp'],
  [('add and remove', C+'lowlevel_indexrepository.cpp: IndexRepository::add / remove'), ('single indexes', C+'uima/lowlevel_internal_indexes.hpp: OrderedSingleIndex, SetSingleIndex, FIFOSingleIndex'), ('composite iteration', C+'uima/lowlevel_internal_indexes.hpp: CachedCompositeIndex'), ('comparator', C+'lowlevel_indexcomparator.cpp: IndexComparator::compare')])

p('P07', 'Index iterators navigate the index as a cursor over a sequence',
  'For any index contents, any sequence of moveToFirst, moveToLast, moveToNext, moveToPrevious, moveTo, peekNext and peekPrevious calls on an iterator is equivalent to moving a cursor over the sequence of indexed feature structures: isValid is true exactly when the cursor is on an element, get returns that element, the peeks return the neighbours without moving, and moveTo puts it on its argument if that is in the index, otherwise on the first element not smaller than it, if there is one. Stepping back from the first or forward from the last element makes it invalid. A copied or assigned iterator starts at the same position and moves independently.',
  ['histories', 'inputs'], 'All contents (including empty indexes, duplicates, one or many subtypes) and all navigation sequences on plain, type-set, filtered, sub- and unambiguous iterators.',
  'Tests run each iterator forward once; position bookkeeping at the ends, on direction changes and after copies needs arbitrary navigation histories.',
  [C+'fsiterator.cpp', C+'uima/lowlevel_internal_indexes.hpp', C+'lowlevel_internal_indexes.cpp', C+'lowlevel_index.cpp', C+'cas.cpp', C+'uima/lowlevel_indexiterator.hpp'],
  [('FSIterator', C+'fsiterator.cpp'), ('composite iterator', C+'uima/lowlevel_internal_indexes.hpp: CachedCompositeIndexIterator'), ('sub-iterators', C+'cas.cpp: SubIterator, UnambiguousIteratorImpl')])

p('P08', 'Filters select exactly the matching feature structures, in order',
  'A filtered iterator visits exactly the elements of its index that satisfy the filter, in index order, where the elements that satisfy it are those it does not report as filtered; a filter built from comparisons of int, float and string features over feature paths, type conditions and and/or/not combinations filters a feature structure exactly when the corresponding logical formula is true of its values, and a path through a missing value raises a UIMA exception. A type-set iterator visits exactly the elements whose type is one of the given types.',
  ['inputs'], 'All filter trees over all comparison operators and feature paths, all index contents.',
  'Only a few single-comparison filters are tested; combinations and paths through missing values cannot be enumerated by hand.',
  [C+'fsfilterbuilder.cpp', C+'uima/fsfilterbuilder.hpp', C+'uima/lowlevel_fsfilter.hpp', C+'lowlevel_internal_indexes.cpp', C+'fsindex.cpp'],
  [('filter builder', C+'fsfilterbuilder.cpp: FSFilterBuilder'), ('filtered iteration', C+'lowlevel_internal_indexes.cpp: FilterIndexIterator'), ('type sets', C+'fsindex.cpp: FSIndex::typeSetIterator')])

p('P09', 'Annotation iteration honours order, coverage and ambiguity',
  'The annotation index visits annotations by begin ascending, then end descending, then type priority. A subiterator of an annotation visits exactly the annotations of the requested type that come after it in that order and begin within its span, in both directions; an unambiguous iterator or subiterator visits the left-to-right greedy non-overlapping subsequence, getFirstCoveringAnnotation returns, among the annotations of the requested type that cover the given one and are of another type, one with the nearest begin, or an invalid one when there is none, moveToBeginPosition places an iterator at the first element with the begin of an annotation or says that there is none, and getCoveredText is exactly the document text between begin and end, or an exception when that is not part of the text.',
  ['inputs', 'configurations'], 'All sets of annotations (nested, crossing, empty, identical spans, several types) with all type priorities, over all texts.',
  'Identical spans, type priorities and nesting interact; the tests use one short document.',
  [C+'cas.cpp', C+'lowlevel_indexcomparator.cpp', C+'lowlevel_internal_indexes.cpp', F+'casdefinition.cpp'],
  [('sub-iterator', C+'cas.cpp: AnnotationFS::subIterator, ANIndex::subIterator'), ('unambiguous', C+'cas.cpp: ANIndex::unambiguousIterator'), ('covering', C+'cas.cpp: AnnotationFS::getFirstCoveringAnnotation'), ('type priority', C+'lowlevel_typesystem.cpp: computeTypePriorityClosure')])

p('P10', 'Views and sofas keep their data apart',
  'For any history of creating sofas and views, setting text, mime types, sofa data and languages and indexing feature structures, each view returns exactly the sofa data, mime type, document text, language and index contents set through it, and nothing done in one view changes what another returns. Views and sofas are found under the names they were created with, every view or sofa name is unique (a duplicate or unknown name raises a UIMA exception), the sofa iterator lists each sofa once, and a view with a document text that is not empty has exactly one document annotation spanning it.',
  ['histories'], 'All histories over several views including the default view, all texts (also non-BMP), data kinds and interleavings with index operations.',
  'Tests create two or three views in one fixed order; numbering, the default view and document annotation bookkeeping depend on the order of calls.',
  [C+'cas.cpp', C+'uima/cas.hpp', C+'lowlevel_indexrepository.cpp'],
  [('views', C+'cas.cpp: CAS::createView / getView / registerView'), ('sofas', C+'cas.cpp: CAS::createSofa / getSofa'), ('document text', C+'cas.cpp: CAS::setDocumentText / updateDocumentAnnotation')],
  [('iv_sofa2tcasMap', 'view of each sofa number', C+'uima/cas.hpp'), ('iv_sofa2indexMap', 'index repository of each sofa number', C+'uima/cas.hpp')])

p('P11', 'A reset CAS behaves like a new one',
  'After reset, a CAS that has been used in any way (feature structures, several views, sofa data, indexes, deserialized content) behaves under every further history of operations exactly as a freshly created CAS of the same type system, with no sofa, view content, indexed feature structure, document text or language left over.',
  ['histories'], 'All histories before the reset and all histories after it, repeated.',
  'Tests reset between two fixed documents; leftovers show only when a later history touches what an earlier one left.',
  [C+'cas.cpp', C+'lowlevel_fsheap.cpp', C+'lowlevel_indexrepository.cpp', C+'uima/lowlevel_internal_heap.hpp'],
  [('reset', C+'cas.cpp: CAS::reset'), ('heap reset', C+'lowlevel_fsheap.cpp: FSHeap::reset'), ('index reset', C+'lowlevel_indexrepository.cpp: IndexRepository::reset')])

p('P12', 'Sofa data streams deliver the sofa data exactly',
  'For a sofa whose data is a string, a byte, boolean, short, int, long, float or double array, or a URI served by a registered stream handler, the stream opened on it has the size of that data in bytes and, under any sequence of read and seek calls of any sizes, returns the bytes (strings in UTF-8, array elements in memory layout) at the current position, each once, until the end and no further.',
  ['inputs', 'histories'], 'All data kinds, contents and lengths including empty and all sequences of read sizes, element sizes and seeks.',
  'The test reads each kind in one fixed chunk size; partial reads, seeks and ends need arbitrary sequences.',
  [C+'sofastream.cpp', C+'uima/sofastream.hpp', C+'cas.cpp'],
  [('local stream', C+'sofastream.cpp: LocalSofaDataStream'), ('remote stream', C+'sofastream.cpp: RemoteSofaDataStream')])

p('P13', 'Binary serialization restores an equal CAS',
  'Serializing any CAS to the binary form (the component structure or the blob) and deserializing it into a CAS of the same type system gives a CAS with the same views, sofas, document texts and indexes in the same order (each indexed structure once, ties in any order) over an isomorphic graph of feature structures with identical values. A blob whose bytes were swapped for a machine of the other byte order is read to the same result, and using the restored CAS further behaves as using the original.',
  ['inputs', 'histories'], 'All CAS contents: any graph (cycles, sharing), all feature and array kinds, several views, unindexed and indexed structures; both byte orders; repeated deserialization into the same CAS.',
  'The round trip is tested on two small documents; layout of the 8, 16 and 64-bit heaps, index lists of several views and byte swapping depend on the content.',
  [C+'internal_casserializer.cpp', C+'internal_casdeserializer.cpp', C+'internal_serializedcas.cpp', C+'uima/internal_serializedcas.hpp', C+'lowlevel_fsheap.cpp'],
  [('serialize', C+'internal_casserializer.cpp: CASSerializer::serializeData / getBlob'), ('deserialize', C+'internal_casdeserializer.cpp: CASDeserializer::deserializeData / deserializeBlob'), ('byte swapping', C+'internal_casdeserializer.cpp: Swap2/Swap4/Swap8')])

p('P14', 'XCAS output reads back as an equal CAS',
  'Writing any CAS as XCAS and reading the document into a CAS of the same type system gives a CAS with the same sofas, texts and index contents per view over an isomorphic graph of the feature structures reachable from the indexes, with equal values; floating point values agree to the six digits written and null and empty strings are not distinguished. The written document is well-formed XML.',
  ['inputs'], 'All CAS contents expressible in XML 1.0: any graph, all feature and array kinds, several views, text and string values with XML special characters and non-BMP characters.',
  'Tests compare two sample documents; escaping, references, multi-view indexes and array forms depend on the content.',
  [C+'caswriter_abase.cpp', C+'xmlwriter.cpp', C+'xcasdeserializer.cpp', C+'xcasdeserializer_handler.cpp', C+'uima/xcasdeserializer_handler.hpp'],
  [('writer', C+'xmlwriter.cpp: XCASWriter'), ('reader', C+'xcasdeserializer_handler.cpp: XCASDeserializerHandler')])

p('P15', 'XMI output reads back as an equal CAS',
  'Writing any CAS as XMI and reading the document into a CAS of the same type system gives a CAS with the same sofas, texts and index contents per view over an isomorphic graph of the feature structures reachable from the indexes, with equal values; floating point values agree to the six digits written, null and empty strings are not distinguished, and arrays and lists in features that do not allow multiple references are restored by value. The written document is well-formed XML with unique ids.',
  ['inputs'], 'All CAS contents expressible in XML 1.0: any graph, all feature, array and list kinds with and without multiple references allowed, several views and namespaces, text with XML special and non-BMP characters.',
  'Tests compare two sample documents; inlining of arrays and lists, escaping, namespaces and id assignment depend on the content.',
  [C+'xmiwriter.cpp', C+'xmlwriter.cpp', C+'xmideserializer.cpp', C+'xmideserializer_handler.cpp', C+'uima/xmideserializer_handler.hpp'],
  [('writer', C+'xmiwriter.cpp: XmiWriter'), ('reader', C+'xmideserializer_handler.cpp: XmiDeserializerHandler')])

p('P16', 'Lenient XMI reading keeps data outside the type system',
  'Reading an XMI document leniently into a CAS whose type system lacks some of its types or features gives exactly the part of the content that the type system can express, and writing that CAS again with the shared data from the read gives a document that, read with the full type system, is equal to the original CAS. Ids of feature structures that were read are kept when writing with the shared data, ids of new ones do not collide with them, and reading without lenience an unknown type or feature raises an exception.',
  ['inputs', 'configurations'], 'All CAS contents and all reduced type systems (types and features removed).',
  'Two fixed pairs of type systems are tested; which references cross the border of the type system is a matter of content.',
  [C+'xmideserializer_handler.cpp', C+'xmiwriter.cpp', C+'uima/xmishareddata.hpp', C+'xcasdeserializer_handler.cpp'],
  [('out-of-type-system data', C+'xmideserializer_handler.cpp: addToOutOfTypeSystemData'), ('shared data', C+'uima/xmishareddata.hpp: XmiSerializationSharedData')])

p('P17', 'Malformed XML input is answered with an error, not corruption',
  'For any byte sequence presented as an XCAS, XMI, type system or analysis engine document, in particular well-formed documents with missing, duplicate, dangling, mistyped or oversized ids, references, attributes, numbers and elements, reading it either succeeds or reports an error through an exception or error code; it never crashes, reads or writes outside its memory or hangs, and afterwards the CAS can be reset and used as before.',
  ['inputs', 'fault_sequences'], 'All mutations of generated and sample documents at the byte, token, attribute and element level.',
  'Each malformed document is its own path through the readers; there are no negative reader tests.',
  [C+'xcasdeserializer_handler.cpp', C+'xmideserializer_handler.cpp', C+'xmltypesystemreader.cpp', F+'taespecifierbuilder.cpp', F+'engine.cpp'],
  [('XCAS reader', C+'xcasdeserializer_handler.cpp'), ('XMI reader', C+'xmideserializer_handler.cpp'), ('descriptor parser', F+'taespecifierbuilder.cpp'), ('type system reader', C+'xmltypesystemreader.cpp')])

p('P18', 'Type systems survive their XML form',
  'Writing any type system with the type system writer, and any type system description embedded in a descriptor with its XML output, gives well-formed XML which, read again, yields a type system with the same types, supertypes, features and ranges; its graph in the dot language has exactly one node for each type asked for, with its features, and one edge for each supertype.',
  ['inputs'], 'All generated type systems with names, descriptions and creator ids containing any characters, string subtypes and all feature ranges.',
  'One type system is written by the tests and not compared.',
  [C+'xmltypesystemwriter.cpp', C+'xmltypesystemreader.cpp', F+'taespecifierbuilder.cpp', F+'taespecifier.cpp', F+'dottypesystemwriter.cpp'],
  [('writer', C+'xmltypesystemwriter.cpp: XMLTypeSystemWriter::write'), ('reader', F+'taespecifierbuilder.cpp: buildTypeSystem')])

p('P19', 'Analysis engine descriptors keep their meaning through parsing',
  'Parsing an analysis engine descriptor (primitive or aggregate; inline delegates or imported by location) gives a description with exactly the name, implementation, flags, delegates, flow, sofa mappings, parameters with their types and overrides, parameter settings, capabilities, type system, type priorities and indexes the document states, and printing that description as XML and parsing it again gives an equal description.',
  ['inputs'], 'All generated descriptors over all elements of the descriptor schema the parser supports, with arbitrary whitespace, comments and element content.',
  'Tests parse a dozen descriptors written by hand and look only at what the engine does with them.',
  [F+'taespecifierbuilder.cpp', F+'taespecifier.cpp', F+'taemetadata.cpp', F+'uima/taespecifier.hpp', F+'uima/taemetadata.hpp'],
  [('parser', F+'taespecifierbuilder.cpp: TextAnalysisEngineSpecifierBuilder'), ('printer', F+'taespecifier.cpp: AnalysisEngineDescription::toXML')])

p('P20', 'Parameter lookup follows group, language and strategy rules',
  'Looking up a configuration parameter by name, group and language returns the value of the most specific setting the search strategy of the declarations allows: none looks only in the group asked for, default falls back to the default group, language fallback goes from the full language to shorter forms and then to the default group, and a parameter without value reports that it has none. Values are returned with the declared type and multiplicity exactly as set.',
  ['inputs', 'configurations'], 'All generated parameter declarations and settings over groups, common parameters, languages and strategies; all lookups.',
  'Tests query a few parameters; fallback chains are combinations of groups, languages and strategies.',
  [F+'taemetadata.cpp', F+'taespecifier.cpp', F+'annotator_context.cpp', F+'config_param.cpp'],
  [('lookup', F+'taemetadata.cpp: AnalysisEngineMetaData::getNameValuePair'), ('annotator access', F+'annotator_context.cpp: AnnotatorContext::extractValue')])

p('P21', 'Aggregate parameter overrides reach exactly the named delegates',
  'When an aggregate is created, a parameter it overrides takes, in exactly the delegates its override declaration names (through any depth of nesting), the value set in the aggregate, and every other parameter of every delegate keeps the value from its own descriptor. Changing parameter values through the engine and reconfiguring it makes the new values visible to exactly those annotators, which are told to reconfigure.',
  ['configurations', 'histories'], 'All generated aggregate trees, override declarations, settings and sequences of parameter changes and reconfigurations.',
  'Tests have no nested overrides; which delegate sees which value depends on the whole tree.',
  [F+'annotator_context.cpp', F+'taespecifier.cpp', F+'engine.cpp', F+'internal_engine_base.cpp', F+'annotator_mgr.cpp'],
  [('override', F+'annotator_context.cpp: AnnotatorContext::extractValue / assignValue'), ('reconfigure', F+'annotator_mgr.cpp: AnnotatorManager::launchReconfigure')])

p('P22', 'Invalid descriptors are refused when the engine is created',
  'Creating an analysis engine from a well-formed descriptor that breaks one rule of the descriptor format (duplicate delegate, parameter, group, index or setting in one component; a setting declared neither in its group nor among the common parameters, or of another type or multiplicity; a mandatory parameter without value; a flow naming an unknown delegate; an index over an unknown type or feature or ordered by a feature that has no order; two different indexes with one label; an unknown type in, or a cycle of, the type priorities of all components; an impossible type system; a missing implementation) returns no engine and an error, and the process can go on creating valid engines.',
  ['inputs', 'configurations'], 'All generated valid descriptors with one planted violation of a rule.',
  'The tests contain no invalid descriptors.',
  [F+'taespecifier.cpp', F+'taemetadata.cpp', F+'taespecifierbuilder.cpp', F+'engine.cpp', F+'casdefinition.cpp', F+'config_param.cpp'],
  [('validation', F+'taemetadata.cpp: AnalysisEngineMetaData::validate'), ('validation', F+'taespecifier.cpp: AnalysisEngineDescription::validate'), ('engine creation', F+'engine.cpp: Framework::createAnalysisEngine')])

p('P23', 'A fixed flow runs every delegate once, in order, on the same CAS',
  'Processing a CAS with an aggregate with a fixed flow calls process of each primitive annotator of the flow exactly once per mention, in flow order with nested aggregates expanded in place, and each annotator sees everything its predecessors left in the CAS; the result is the same as running the annotators one after the other as separate engines. When an annotator returns an error or throws, no later one runs and the error is reported to the caller.',
  ['configurations', 'histories', 'fault_sequences'], 'All generated aggregate trees and flows, all documents, failures injected at any annotator and call.',
  'Tests run two fixed aggregates without failures.',
  [F+'internal_aggregate_engine.cpp', F+'annotator_mgr.cpp', F+'internal_primitive_engine.cpp', F+'internal_engine_base.cpp', F+'engine.cpp'],
  [('flow', F+'annotator_mgr.cpp: AnnotatorManager::launchProcess'), ('aggregate', F+'internal_aggregate_engine.cpp: AggregateEngine::processImpl')])

p('P24', 'Capability flows call exactly the annotators that can contribute',
  'With a capability language flow, processing a document of a language with a result specification calls, in flow order, exactly those delegates that declare support for the language (or its form without territory, or every language; a document whose language names no territory is also supported by the forms with one) and can output a type or feature still requested and not produced by an earlier delegate, and passes each the part of the result specification it is responsible for. Delegates that declare support for the language but no outputs (consumers) are always called, with an empty result specification.',
  ['configurations', 'inputs'], 'All generated capability sets over types, features and languages, flows, result specifications and document languages.',
  'Three fixed descriptors are tested; the decision depends on the combination of languages, outputs and flow position.',
  [F+'internal_capability_container.cpp', F+'annotator_mgr.cpp', F+'uima/result_specification.hpp', F+'internal_engine_base.cpp'],
  [('capability lookup', F+'internal_capability_container.cpp: CapabilityContainer'), ('flow decision', F+'annotator_mgr.cpp: AnnotatorManager::shouldEngineBeCalled')])

p('P25', 'Engines follow their life cycle and pass every call on once',
  'An analysis engine accepts initialize, process, reconfigure, batch and collection completion and destroy only in a legal order and answers an illegal call with the calling-sequence error without reaching the annotator; every legal call reaches each annotator of the engine exactly once. Every annotator created is destroyed and deleted exactly once, also when its initialization or that of a sibling fails.',
  ['histories', 'fault_sequences'], 'All call sequences on primitive and aggregate engines with failures injected at any annotator call.',
  'Tests make a few calls in the proper order and a few in a wrong one.',
  [F+'internal_engine_base.cpp', F+'internal_primitive_engine.cpp', F+'internal_aggregate_engine.cpp', F+'engine.cpp', F+'annotator_mgr.cpp', F+'internal_jedii_engine.cpp'],
  [('life cycle', F+'internal_engine_base.cpp / internal_primitive_engine.cpp: init, process, destroy'), ('delegates', F+'annotator_mgr.cpp: launchInit / launchDestroy')])

p('P26', 'CAS multipliers deliver each segment once through a bounded pool',
  'Calling processAndOutputNewCASes on a CAS multiplier delivers exactly the CASes its annotator emits, in order, each with the content it was given, and reports failures of the annotator; an annotator never holds more CASes than it asked for. A CAS pool hands out as many distinct CASes as configured, never one that is in use, refuses when it is exhausted and to take back what it has not handed out, and a released CAS comes back empty.',
  ['histories', 'configurations'], 'All generated segmentations, flows, pool sizes and orders of requesting, consuming and releasing CASes, documents processed one after the other.',
  'Tests segment one fixed text with one flow.',
  [F+'caspool.cpp', F+'casiterator.cpp', F+'internal_aggregate_engine.cpp', F+'internal_primitive_engine.cpp', F+'annotator_mgr.cpp', F+'annotator_context.cpp'],
  [('pool', F+'caspool.cpp: CASPool::getCAS / releaseCAS'), ('iterator', F+'casiterator.cpp: CASIterator'), ('aggregate', F+'internal_aggregate_engine.cpp: processAndOutputNewCASes')])

p('P27', 'Sofa mappings give each annotator the view its aggregate assigned',
  'In any nesting of aggregates with sofa mappings, the view an annotator gets under a local name (or by default, for a sofa unaware annotator) is the view obtained by applying the mappings of the enclosing aggregates from the inside out, with unmapped names passed through; two annotators share data exactly when their names map to the same sofa.',
  ['configurations'], 'All generated aggregate trees and sofa mappings, including renamings, swaps and missing component sofa names.',
  'Tests map one name through one level.',
  [F+'annotator_context.cpp', F+'taespecifier.cpp', F+'uima/sofamapping.hpp', F+'annotator_mgr.cpp', C+'cas.cpp'],
  [('mapping', F+'annotator_context.cpp: AnnotatorContext::mapToSofaID'), ('use', C+'cas.cpp: CAS::getView')])

p('P28', 'String references behave as the Unicode string they denote',
  'For any text, every operation of a string reference (comparison in code unit and code point order, equality, find, prefix and suffix tests, extraction of ranges with any bounds, conversion to UTF-8, to a code page and to an ICU string, output to a stream) gives the result the same operation gives on an ICU string with that content, and never reads outside the referenced text.',
  ['inputs'], 'All texts including empty, non-BMP, unpaired surrogates and embedded zero characters, all positions and lengths including out of range ones.',
  'Unit tests contain no checks of the reference class.',
  [F+'unistrref.cpp', F+'uima/unistrref.hpp', F+'strtools.cpp'],
  [('string reference', F+'uima/unistrref.hpp: UnicodeStringRef'), ('comparison', F+'unistrref.cpp')])

p('P29', 'Language identifiers normalise and match as a prefix order',
  'Constructing a language from any well-formed identifier (language, optional territory, either separator, any case) gives its canonical form, two identifiers denote the same language exactly when their canonical forms agree, and number and string forms convert into each other. Two languages match exactly when they are equal, when one of them is unspecified, or when they have the same language and one of them no territory, and an ill-formed identifier gives an invalid language.',
  ['inputs'], 'All language identifiers, well-formed or not, and all pairs of them.',
  'Tests list about twenty identifiers.',
  [F+'language.cpp', F+'uima/language.hpp'],
  [('parse', F+'language.cpp: Language::init'), ('match', F+'language.cpp: Language::matches')])

p('P30', 'Code page and string conversions lose nothing they can represent',
  'Converting any Unicode text to a code page that can represent it and back gives the text, and the bytes and characters converted are those ICU produces; a target buffer that is too small is filled but never overrun and the length needed is returned, and a converter is not affected by what it converted before. The number, white space, padding, searching, replacement and delimited list helpers of the string tools return what a direct reading of the text gives.',
  ['inputs'], 'All texts, code pages (UTF-8, UTF-16, Latin-1, EBCDIC, double byte sets), well-formed or not, buffer sizes and sequences of conversions.',
  'Tests convert a few fixed files.',
  [F+'cp2ucnvrt.cpp', F+'u2cpcnvrt.cpp', F+'strtools.cpp', F+'uima/strconvert.hpp', F+'uima/strtools.hpp', F+'uima/stltools.hpp'],
  [('to Unicode', F+'cp2ucnvrt.cpp: CodePage2UnicodeConverter'), ('from Unicode', F+'u2cpcnvrt.cpp: Unicode2CodePageConverter'), ('string tools', F+'strtools.cpp')])

p('P31', 'The CAS of an engine offers what all its components declare',
  'The CASes of an engine have exactly the built-in types and those declared anywhere in its tree of components, with the union of their features; every index declared by any component is there with its type, kind and keys, holds what is added and is ordered by the keys, and every type priority declared by any component holds. CASes of one engine are independent of each other.',
  ['configurations'], 'All generated aggregate trees with types, features, indexes and priorities spread and repeated over the components.',
  'Tests use aggregates whose components share one type system and declare no indexes or priorities of their own.',
  [F+'casdefinition.cpp', F+'annotator_context.cpp', F+'taespecifier.cpp', F+'typesystemdescription.cpp', F+'internal_engine_base.cpp', F+'engine.cpp'],
  [('merging', F+'casdefinition.cpp: CASDefinition::createTypes / createIndexes'), ('delegates', F+'annotator_context.cpp: AnnotatorContext::getFSIndexDescriptions'), ('type systems', F+'taespecifier.cpp: AnalysisEngineDescription::validate')])

p('P32', 'Engines used through the Java bridge behave as natively used ones',
  'An engine that Java creates, initialises with a descriptor and hands a type system calls its annotators in the same order with the same content as a native engine of that type system: for any CAS sent over, processed (as a whole or a view), and fetched back, and any CAS a CAS multiplier gives, Java gets the arrays that serializing the native result gives. Every error of an annotator or descriptor, at any call, ends in a Java exception with the error id of the native call, nothing of a Java array or string stays pinned, and destroying the engine destroys and deletes every annotator.',
  ['histories', 'inputs', 'faults'], 'All generated engines, type systems, CASes, sequences of documents, batches and repeated type systems, and failures of annotators at any call.',
  'No test runs the JNI layer.',
  ['src/jni/jni.cpp', 'src/jni/jni_utils.cpp', 'src/jni/jni_string.cpp', C+'internal_casdeserializer.cpp', C+'internal_casserializer.cpp', F+'caspool.cpp'],
  [('entry points', 'src/jni/jni.cpp'), ('arrays', 'src/jni/jni_utils.cpp: JNIUtils')])

p('P33', 'The dump of a view shows what its indexes hold',
  'For any view of any CAS, XMLDumpWriter ends and writes a well-formed UTF-8 document with one element for every index of the view, in it the indexed feature structures in the order of the index, each with its type, a unique id, the text it covers, and every feature and array element with the value it has - other feature structures in full unless they are in an index or are being shown already - and, when asked for, the exact document text; the CAS is not changed.',
  ['inputs', 'histories'], 'All generated type systems, indexes, texts, and graphs of feature structures including shared and cyclic ones, of any view.',
  'No test looks at what the dump contains.',
  [C+'xmlwriter.cpp', C+'caswriter_abase.cpp'],
  [('feature structures', C+'xmlwriter.cpp: XMLDumpWriter::writeFS / writeArrayValue'), ('document', C+'xmlwriter.cpp: XMLDumpWriter::write'), ('characters', C+'xmlwriter.cpp: XMLWriterABase::normalize')])

p('P34', 'runAECpp does what its arguments ask, document by document',
  'For any engine, any set of input documents (text in UTF-8, XCAS or XMI) and any combination and order of its options, runAECpp creates each instance of the engine once, hands every document to it once per run with the content the file has and in the view asked for, signals the end of each collection, destroys every instance, and writes, for each document that can be processed and each CAS that is produced from it, one file whose content is what processing that document through the library gives - nothing more. A document that cannot be read or processed is reported and does not affect the others. Arguments that do not make sense are refused before any document is processed.',
  ['configurations', 'inputs', 'histories'], 'All generated engines, directories of documents including malformed and empty ones, options in any order, runs and instances.',
  'The tests run the tool on a handful of fixed files with one set of options and do not look at what it writes.',
  ['src/utils/runAECpp.cpp', F+'engine.cpp', C+'xmiwriter.cpp', C+'xmideserializer.cpp', C+'xcasdeserializer.cpp'],
  [('options', 'src/utils/runAECpp.cpp: main'), ('documents', 'src/utils/runAECpp.cpp: process'), ('segments', 'src/utils/runAECpp.cpp: writeXmi')])

p('P35', 'Equivalent XMI and XCAS documents give the same CAS',
  'What a CAS read from an XMI or XCAS document contains depends on what the document says, not on how it says it: documents that differ only in ids, in the order of attributes, of feature structures or of views, in prefixes and where they are declared, in the name of the root, in extension elements, in whether values are attributes, child elements or content, in whether default values are given, in 1 and 0 for true and false, in the numbers of sofas, in the old name or the old numbering of the initial sofa or its old form without a sofa, in encoding, quotes, white space between elements, comments, character references and CDATA sections give equal CASes. Of an XCAS that has feature structures or features the type system of the CAS does not have, exactly the rest is read.',
  ['inputs'], 'All generated CASes, and any combination of the differences in one document.',
  'The tests read documents in the form the own writers give them, and a few old files whose content they do not compare.',
  [C+'xmideserializer_handler.cpp', C+'xcasdeserializer_handler.cpp', C+'xmideserializer.cpp', C+'xcasdeserializer.cpp'],
  [('XMI elements', C+'xmideserializer_handler.cpp: XmiDeserializerHandler::startElement / endElement'), ('child elements', C+'xmideserializer_handler.cpp: XmiDeserializerHandler::handleFeature'), ('sofa numbering', C+'xcasdeserializer_handler.cpp: XCASDeserializerHandler::readFS'), ('old texts', C+'xcasdeserializer_handler.cpp: XCASDeserializerHandler::endElement')])
p('P36', 'Log entries and error reports reach the user as they were given',
  'Every entry logged through a log facility, by whatever function, stream or macro and from whatever thread, reaches each registered logger exactly once, one at a time and in one order, with the type, text and code that were given and the name the facility was made for (for an annotator that of its engine), unless its type is below the level of the facility; text pending in a log stream is logged once, with the type it was begun with, and the file logger writes each entry as one record with time, type, code, origin and text. The last error of a facility is the one logged last, with its id and message, however often it is asked for, and neither a logger that throws nor a resource manager that ends and is made anew keeps later entries from being logged. Messages contain their parameters, of whatever type, at the places their texts name, and reports contain id, severity, message and all contexts in order.',
  ['inputs','histories','schedules'], 'All generated histories of facilities, loggers, levels and entries; all generated schedules of threads; all message ids with any parameters.',
  'One test registers a logger and counts a few entries; none uses two facilities, streams with pending text, threads, failing loggers or last errors.',
  [F+'log.cpp', F+'uima/log.hpp', F+'exceptions.cpp', F+'resmgr.cpp', F+'annotator_context.cpp'],
  [('delivery', F+'log.cpp: LogFacility::doLog'), ('last error', F+'log.cpp: LogFacility::getLastError'), ('streams', F+'log.cpp: LogFacility::getLogStream / flushLogStream'), ('file', F+'log.cpp: FileLogger::format'), ('messages', F+'exceptions.cpp: ErrorMessage::asString'), ('registration', F+'resmgr.cpp: ResourceManager::registerLogger')])
p('P37', 'File names, locations and resources lead to what their users named',
  'A relative descriptor name is resolved to the first file that exists of the name itself, the name beside the importing file, in the data directory and in its directories descriptors and specifiers, and the file for a language is the one of the language with its territory, else of the language alone, else, when allowed, of any territory. File names, locations and directory walks agree with the strings they were made of and with the file system: names exist only if there is such a file, changes of one part keep the others, normalized names denote the same file, and copies are independent. A resource is created and initialised once for each kind and key, again after an initialisation that failed, and de-initialised and deleted exactly once, when the resource manager ends; there is one manager at a time, which takes its schema, locations and stream handlers from the environment, whatever the length of its values, and can be made anew after it ended.',
  ['inputs','histories'], 'All generated file trees, names, languages, resources and environments; one process at a time.',
  'The tests use one data directory and fixed names, never ask for a resource themselves and never end the resource manager before the process ends.',
  [F+'resmgr.cpp', F+'uima/filename.hpp', F+'uima/location.hpp', F+'uima/dirwalk.hpp', F+'res_abase.cpp'],
  [('resolution', F+'resmgr.cpp: ResourceManager::resolveFilename'), ('languages', F+'resmgr.cpp: ResourceManager::createFilenameForLanguage'), ('resources', F+'resmgr.cpp: ResourceManager::getResource / deleteResourceList'), ('file names', F+'uima/filename.hpp: Filename'), ('instances', F+'resmgr.cpp: ResourceManager::createInstance / deleteInstance')])

p('P38', 'Walking a CAS meets every feature structure once',
  'After any history of creations through any views, sofa settings, resets and restorations, the iterator of a CAS meets every feature structure in it, indexed or not and in whichever view it was created, exactly once and with its type; arrays of every element type and size, strings, lists, sofas and document annotations included. A copy of such an iterator goes on from the element at which it was made, a walk can be started again, and an empty or reset CAS has no element.',
  ['histories', 'inputs'], 'All type systems and histories of createFS, arrays of all kinds and sizes including empty ones, lists, sofas, texts and annotations in several views, with resets, binary restorations and iterator copies in between.',
  'The walk decodes the heap cell by cell, so that the layout of each feature structure decides where the next is looked for; no test uses it.',
  [C+'uima/lowlevel_defaultfsiterator.hpp', C+'cas.cpp', C+'fsiterator.cpp', C+'uima/lowlevel_fsheap.hpp'],
  [('heap walk', C+'uima/lowlevel_defaultfsiterator.hpp: DefaultFSIterator::moveToNext'), ('entry point', C+'cas.cpp: CAS::iterator'), ('array layout', C+'uima/lowlevel_fsheap.hpp: FSHeap::createArrayFS')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for x in P:
        assert len(x['title']) <= 80, x['title']
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=True) + '\n')
