"""Per property: how it is decided (goes into the evidence of every run and, through tools/meta.py, into DESIGN.md)."""
EXPLAIN = {
 'C01': 'Drivers (drivers/ptr.cpp) call every operation of Ptr and ComPtr on handles in every abstract state: empty, owner of a fresh object, one of n+1 owners where n is an arbitrary symbolic count, the same handle twice, a handle stored inside the object being released. '
        'The engine keeps the counter as a linear term and the object as a typestate (alive, destroyed); rules: the object is destroyed exactly when the count of handles reaches zero, never touched afterwards, the counter box is freed once, handles end empty or owning as specified. '
        'The counter may only be changed by an atomic read-modify-write and the decision to destroy may only use its result: a plain load or store of the counter is a violation, which decides the interleavings without enumerating them.',
 'C02': 'Drivers (drivers/str.cpp) apply every ObjectString operation to strings of arbitrary length, slice start and owner count, sharing or not sharing a buffer, owned or unmanaged. Storage is an array segmentation with symbolic bounds. Rules: every access within the allocation, freed once when the symbolic owner count reaches zero, never used after, unmanaged storage never freed, terminator at the length after Buffer(), only atomic access to the counter.',
 'C03': 'Same drivers; the content of each string is a symbolic segmentation with provenance (segment = slice k..l of source text t), so the result of every operation is compared segment by segment with the definition for all lengths and arguments. Integer arguments are machine integers: additions on them wrap, so an overflowing range check is refuted. Comparison and search use ghost positions (first difference, first occurrence).',
 'C04': 'Drivers (drivers/list.cpp, E_*) run each operation of Array, List and SortedList with an opaque element type whose special members are intrinsics, from every state: arbitrary length n, arbitrary capacity, arbitrary contents. Each storage segment carries the lifetime of its elements (raw, live, moved-from). Loops are summarised by invariants inferred from their first iterates (affine acceleration of segment bounds) and verified inductive. The lifetime rules are decided on every access. *_own drivers pass an element of the same collection.',
 'C05': 'Same drivers plus I_* over integers: the resulting segmentation is compared with the sequence the definition gives, for every length, position and capacity; results (positions, flags, counts) are compared as linear terms. Lexicographic comparison of collections is decided in drivers/seq.cpp for all orders of up to three elements, and on longer sequences (see sizes).',
 'C06': 'The acceptance condition of each operation taking a position or count is derived as the set of partitions that raise Error and compared with the range definition for all 64-bit arguments (wrapping); on rejection the collection must be unchanged.',
 'C07': 'Every operation of Nullable over opaque payloads of three kinds (assignable, copy-only, move-only), from every state, aliased and not: lifetime typestate of the payload slot, value identity, null flag, result of comparisons for every order of the payloads; the buffer must have room for the payload and its alignment.',
 'C08': 'Every operation of Variant for every pair of current and new alternative over opaque types: lifetime typestate of the slot including the type under which it is destroyed, value identity, index, which overload a visitor receives and how often.',
 'C09': 'Dictionary: each operation from every valid abstract state (n keys in strict order, values in lockstep, both symbolic segmentations). Group: every history of up to four operations over arbitrary keys and values (all equality/order patterns), then each observer; long histories with a size taken from the constants of the code.',
 'C10': 'SortedList operations from every sorted state: the contents are partitioned relative to the searched value (less, equal, greater segments of arbitrary length); the binary search loop is replaced by a verified invariant. Insert position, search result, removal and order of the result are decided for all lengths.',
 'C11': 'Every source and operator is enumerated over up to three opaque elements with arbitrary predicates/mappings/keys; at every position the enumerator is cloned and reset, and index, current element, exhaustion and independence are compared with the list of elements the definition gives; allocations must balance.',
 'C12': 'Every operator and query, alone and in the listed compositions, over up to three opaque elements and arbitrary predicates, mappings and integer arguments: the produced list is compared element by element with the definition written independently in the driver; errors exactly where required; number of callback calls after materialising.',
 'C13': 'Bit operations are turned into exact linear terms over floor quotients of the input, so each path of an encoder or decoder yields the code units as linear functions of the code point and the path condition as an interval; both are compared with the arithmetic definition for all 2^32 values and all code unit sequences. Byte swapping is decided on byte-split stores.',
 'C14': 'Whole conversions between every pair of encodings of texts of up to two arbitrary code points (every combination of encoded lengths), with an unencodable value at either position, from slices, into buffers of every size around the needed one; every reading position of the readers; longer texts of fixed code points at sizes taken from the constants of the code.',
 'C15': 'Func made from every kind of callee over opaque captures and arguments: which callee is called, with which object identities, how often, its result; lifetime of the stored callee through copying, assigning, converting and dropping in every order.',
 'C16': 'Histories of attaching, detaching and invoking up to three handlers, in every relative address order of the handlers (the order in which the sorted list keeps them), handlers that detach themselves or others or attach while running; call counts and argument identities.',
 'C17': 'The global initialisers and all histories of use/test/finalise up to five steps over several storages are followed from the initial values of all globals; creation typestate of each object.',
 'C18': 'Printing: digits are floor quotients of the number, the text is compared with the canonical decimal for all values of the width. Parsing: strtol and friends are replaced by their documented contract over abstract texts; acceptance is compared with the definition. Case mapping: per character with the C library function uninterpreted.',
 'C19': 'Two analyses. (1) Effect analysis of all library functions (every .cpp of Source that builds on Linux and every template the drivers instantiate): a static or global variable written outside initialisation, directly or through a callee that writes its parameter, or a call to a C function with static result, is reported with variable, function and line. (2) Frozen objects: reading operations of every type are analysed with the shared object frozen; any non-atomic store into storage reachable from it is reported.',
 'C21': 'Sort, SortLambda and OrderBy* over up to six (thorough: seven) opaque elements in every order pattern with ties, over inner ranges with guards on both sides; result is compared with the multiset and order; long inputs of sizes taken from the constants of the code (fixed patterns).',
 'C22': 'Pair and Tuple over opaque elements: provenance of every element after each operation; all comparison operators for every combination of element orderings, against the lexicographic definition and against each other.',
 'C23': 'Every CopyFrom overload pair (array, list, sorted list, dictionary, group, lazy sequence, pointer range) over up to three opaque elements and up to two previous ones, append and replace, including a collection appended to itself.',
 'C24': 'Type-level witnesses (drivers/type.cpp, compiled with access control on): each line asks by overload resolution or a requires-expression whether a violating program is accepted, so the compiler decides over all programs of that form; the constant it computes is read from the IR, never executed. Positive witnesses guard against a type refusing everything.',
 'C25': 'All dependency relations over up to three items (four in the thorough check) in every order of items and additions, through each way of giving the relation; components, order and lists compared with the reachability closure computed in the driver; long chains and cycles at sizes taken from the constants of the code.',
 'C26': 'All functions over an arbitrary moment and an arbitrary zone (symbolic standard offset and daylight saving shift in force or not at each instant); localtime_r, gmtime_r, mktime, timegm, timer replaced by their contracts, calendar fields uninterpreted functions of the civil second.',
 'C27': 'The runner itself is analysed from program start, with exceptions: cases that pass, fail an assertion, throw Error, Exception or anything else, nested categories, misplaced cases and assertions, up to three files, option forms; return value, counters, what is reported to the (abstract) console and whether later cases ran.',
 'C28': 'PushOnlyAllocator over block sizes 1..4 and up to seven objects, any integer index; ByteObjectMap for every byte, alone, together with every byte differing in one bit, and full, fresh nodes start with arbitrary memory.',
 'C20': 'wtoa, atow and the conversions built on them over texts of up to three arbitrary characters, managed, unmanaged and sliced; wcstombs and mbstowcs are replaced by their contract over an arbitrary locale: ASCII stands for itself, any other character has no encoding or one of one to three non-ASCII bytes that decodes back. Bounds of both buffers are decided on every write; results are compared unit by unit. Long ASCII texts at sizes taken from the constants of the code.',
 'C29': 'The generator from program start: repeated calls for each length through the whole word list and around it, in each casing, so that every word is the first and the last of a text; paragraphs with every number the random generator may return (symbolic) and any time; every write is decided against the buffer, every character, the length, the casing and the punctuation of the result against the statement.',
}
