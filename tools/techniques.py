TECH.update({
 'P01': 'model-based stateful property testing: random histories of creates and writes against a map of last written values',
 'P02': 'model-based stateful property testing: arrays and lists against std::vector models',
 'P03': 'property-based testing: generated ill-typed accesses must raise and leave every value of the model unchanged',
 'P04': 'property-based testing: generated hierarchies against set-theoretic closure computed from the declarations',
 'P05': 'property-based and metamorphic testing: descriptions split over imports, orders and delegates against the union computed directly',
 'P06': 'model-based stateful property testing: add and remove histories against per-type lists and the key comparison',
 'P07': 'model-based stateful property testing: navigation histories against a cursor on the iterated sequence',
 'P08': 'property-based testing: generated filters and type sets against the logical formula evaluated on the values written',
 'P09': 'property-based testing: generated annotation sets against a direct reading of order, coverage and greedy non-overlap',
 'P10': 'model-based stateful property testing: histories over several views against one record per view',
 'P12': 'model-based stateful property testing: read and seek histories against a byte vector and a cursor',
 'P13': 'round-trip property testing: generated histories serialized in every binary form, restored, compared and used further',
 'P14': 'round-trip property testing: generated CAS histories written as XCAS, checked for well-formedness, read and compared up to isomorphism',
 'P15': 'round-trip property testing: generated CAS histories written as XMI, checked for well-formedness and unique ids, read and compared up to isomorphism',
 'P16': 'metamorphic property testing: generated CASes read leniently into subsets of the type system, edited, written and read back in full, compared with the same edits made in full',
 'P17': 'mutation fuzzing: valid generated documents damaged at byte, token, attribute and element level, read under AddressSanitizer; an answer must be a value or an exception and the CAS must stay usable',
 'P11': 'differential stateful property testing: one generated history on a reset CAS and on a new one',
})
NOTE = {}
NA = {}
TECH.update({
 'P18': 'round-trip property testing: generated type systems written by the writer and printed in descriptors, read independently and by the library and compared with the declarations',
 'P19': 'round-trip and differential property testing: generated descriptors in varied concrete syntax, parsed and compared field by field with the model, printed, read independently and parsed again',
})
TECH.update({
 'P20': 'model-based stateful property testing: generated declarations and settings, lookups of every kind and assignments against a direct model of groups, fallbacks and strategies',
 'P21': 'model-based stateful property testing: generated trees of components, lookups and assignments at every level against a model of overrides',
})
TECH.update({
 'P28': 'differential property testing: every operation of a string reference against the same operation of an ICU string over generated texts and ranges, in exactly sized blocks under AddressSanitizer',
 'P29': 'property-based testing: generated and near-miss identifiers against the canonical form and prefix order computed by direct reading',
 'P30': 'differential and round-trip property testing: generated texts and bytes converted against ICU with exact buffers, string helpers against direct readings',
})
TECH.update({
 'P23': 'differential property testing with fault injection: generated aggregate trees over scripted annotators against the annotators run one after the other, failures planted at any call',
 'P25': 'stateful property testing with fault injection: generated call sequences on generated engines against a life-cycle model, every annotator accounted for',
 'P27': 'model-based property testing: generated trees of aggregates and sofa mappings against the mappings applied from the inside out, on contexts and through running annotators',
})
TECH.update({
 'P24': 'model-based property testing: generated capabilities, languages, flows and result specifications against a direct evaluation of who can still contribute',
 'P26': 'model-based stateful property testing: generated segmentations, pool sizes and orders of requests and releases against the list of emitted segments and the set of CASes handed out',
})
TECH.update({
 'P22': 'mutation-based property testing: one rule broken in generated valid descriptors; the engine must be refused, leave nothing behind and the valid one be accepted',
 'P31': 'model-based property testing: declarations spread over generated trees of components against the union, indexes checked with generated contents',
})
TECH.update({'P32': 'differential property testing: generated engines, CASes and failures through the JNI entry points with a model of the Java virtual machine against native calls'})
TECH.update({'P34': 'differential property testing: the program on generated engines, documents and command lines against the same documents processed through the library, with a log of every call of the annotators'})
TECH.update({'P33': 'property-based testing: the dump of every generated CAS is parsed and compared element by element with what the indexes and feature structures of the view give'})
TECH.update({'P35': 'metamorphic property testing: written documents rewritten at random into other documents that say the same, and CASes read from both compared'})
TECH.update({'P36': 'model-based stateful property testing: histories of facilities, loggers, levels, streams and threads against the list of entries each logger must get; metamorphic testing of messages with marked parameters'})
TECH.update({'P37': 'model-based property testing: generated file trees, names, languages, resource histories and environments against string, file system and counting models, in processes of their own'})
TECH.update({'P38': 'model-based property testing: generated histories of a CAS, every feature structure created against those an iterator over the heap meets, copies of the iterator in lock step'})
