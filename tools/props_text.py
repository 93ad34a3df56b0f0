LVL = ('every obligation is decided over all inputs of the stated class by abstract interpretation with exact linear/segment domains; a violation is reported only on a partition that is exact and has an integer point; '
       'what the domains cannot decide is counted as undecided in the evidence and never reported as a violation')
prop('C01', 'Shared handles destroy the object exactly once, after the last handle goes',
  'An object managed by shared-ownership handles stays alive while any handle refers to it and is destroyed exactly once when the last one is dropped, for every sequence of copying, moving, assigning (self-assignment and assignment from a handle stored in the released object included), casting, swapping in from a raw pointer and detaching. Casting to an unrelated type yields an empty handle and leaves ownership unchanged, a moved-from handle is empty, handles compare by the identity of the object, and concurrent owners only touch the shared count atomically.',
  ['histories', 'programs', 'schedules'], 'all operations on all handle states (empty, sole owner, one of many owners, aliased), with any number of other owners dropping concurrently',
  'tests use a few fixed chains of handles on one thread; they see neither aliasing between handle and owned object nor other owners racing',
  ['Source/Primitives/Pointer.h'], [('shared pointer', 'Source/Primitives/Pointer.h: Ptr, MakePtr, ReferenceCounterOperator'), ('COM-style pointer', 'Source/Primitives/Pointer.h: ComPtr')],
  T_AI + 'ownership typestate of every handle operation over arbitrary reference counts', LVL)
prop('C02', 'String storage: shared buffer freed exactly once, always readable and terminated',
  'The storage behind strings is released exactly once, after the last string sharing it is gone, never while some string still reads it, and storage the string does not own is never released. Every access a string operation makes stays inside the storage; the character pointer handed out is followed by a terminating zero at the string length and stays valid while that string is only read or copied; sharing between strings on several threads only changes the count atomically.',
  ['inputs', 'histories', 'schedules'], 'all strings (any length, slice, owner mix), all operations and argument values',
  'tests run with small literals; out-of-bounds reads of one character, a missed release or a non-atomic count do not fail an assertion',
  ['Source/Strings/String.h'], [('shared string buffer', 'Source/Strings/String.h: ObjectString'), ('atomic count', 'Source/Basic.h: atomic_vint, INCRC/DECRC')],
  T_AI + 'bounds, lifetime and ownership analysis of every string operation on abstract strings', LVL)
prop('C03', 'String operations return exactly the specified characters and reject bad ranges',
  'Every string operation (construction, copying, concatenation, prefix, suffix, slice, insertion, removal, search, indexing, comparison with strings and with raw text) yields exactly the character sequence, index or order that the sequence definition prescribes, and leaves its operands unchanged. An index or range outside the string is rejected with an error, and one inside is accepted.',
  ['inputs'], 'all string contents, lengths, slices and all integer arguments, for the character widths instantiated',
  'tests compare fixed literals; they cannot cover every combination of slice offset, length and argument',
  ['Source/Strings/String.h'], [('string operations', 'Source/Strings/String.h: ObjectString'), ('argument checks', 'Source/Strings/String.h: CHECK_ERROR in Left, Right, Sub, Remove, Insert, operator[]')],
  T_AI + 'functional specification of each operation against abstract character sequences', LVL)
prop('C04', 'Collections construct and destroy every element exactly once',
  'Arrays, lists and sorted lists keep exactly their elements alive: an element is constructed once before it is read, destroyed once, never read, assigned or destroyed outside its lifetime, and none is left alive when its slot is released. No operation reads or writes outside the storage it owns, including when the value inserted, by copy or by move, is an element of the same collection and when a collection is assigned from one held by its own element.',
  ['histories', 'inputs'], 'every operation from every valid collection state, all element types with non-trivial construction, copying and destruction',
  'tests use integers or look only at contents; a leaked, double-destroyed or raw-copied element stays invisible',
  ['Source/Collections/List.h'], [('storage primitives', 'Source/Collections/List.h: memory_management'), ('containers', 'Source/Collections/List.h: ArrayBase, Array, ListBase, List, SortedList')],
  T_AI + 'element lifetime typestate over segmented storage, with inferred and verified loop invariants', LVL)
prop('C05', 'Array and list operations produce exactly the specified sequence',
  'After any array or list operation (construction, adding, inserting, setting, removing one element, a range or a value, clearing, resizing, moving, taking over another collection, searching, indexing) the collection holds exactly the sequence of elements that the operation on a mathematical sequence yields, its count matches, and results such as positions and success flags agree. Comparing two collections orders them lexicographically.',
  ['histories', 'inputs'], 'all collection states (any length and spare capacity), all positions and values',
  'tests run a few lengths, so growth, shrinking and moves at other positions and capacities are not reached',
  ['Source/Collections/List.h'], [('list operations', 'Source/Collections/List.h: List'), ('array operations', 'Source/Collections/List.h: Array')],
  T_AI + 'functional specification of each operation against abstract sequences', LVL)
prop('C06', 'Out-of-range positions are rejected without changing the collection',
  'Reading, writing, inserting at or removing from a position or range outside a collection raises an error and leaves the collection as it was, and every position inside it is accepted. No integer argument, negative or huge, makes an operation touch memory outside the collection.',
  ['inputs'], 'all integer positions and counts, all collection lengths',
  'tests probe a handful of indices around the ends of small collections',
  ['Source/Collections/List.h'], [('range checks', 'Source/Collections/List.h: CHECK_ERROR in Array, List, SortedList')],
  T_AI + 'exact acceptance condition of each operation compared with the range definition', LVL)
prop('C10', 'Sorted lists stay sorted and searches find exactly the equal elements',
  'A sorted list is in non-decreasing order after every operation, holds exactly the multiset of elements added and not removed, and adding returns the position where the element is; copying one leaves the source unchanged. Searching returns a position of an equal element whenever there is one and a negative result otherwise, and removing a value removes exactly one equal element.',
  ['histories', 'inputs'], 'all sorted contents with any number of duplicates, all values',
  'tests insert a few fixed sequences; binary search faults need particular lengths and positions',
  ['Source/Collections/List.h'], [('ordered insertion and binary search', 'Source/Collections/List.h: SortedList')],
  T_AI + 'functional specification over sequences partitioned by order relative to the searched value; loop invariants verified', LVL)

prop('C07', 'A nullable value is either null or holds exactly one live value',
  'A nullable value holds either nothing or exactly one live object, constructed once and destroyed once, whatever sequence of construction, copying, moving, assignment (self-assignment, assignment of its own value and from a nullable held by its own value included) and resetting led there; a moved-from nullable is null and the copied one keeps its value. Reading the value of a null one raises an error and never otherwise; comparison puts null below every value and otherwise compares the values.',
  ['histories', 'programs'], 'all operations on all states, for assignable, copy-only and move-only payload types',
  'tests look at integer payloads; construction and destruction imbalances and aliasing are invisible to them',
  ['Source/Primitives/Nullable.h'], [('nullable', 'Source/Primitives/Nullable.h: Nullable')],
  T_AI + 'lifetime and value typestate of every operation over opaque payloads', LVL)
prop('C08', 'A variant always holds one live element of exactly its current type',
  'A variant always holds exactly one live object, of the type its index names, constructed once and destroyed once as the type of that index, for every construction, copy, move, assignment (from itself, from its own contents, from another type) and explicit setting; after each the content is the assigned value. Access as another type yields an error or null, access as the right type yields the content, and visiting calls the callback exactly once, with the content, as its actual type.',
  ['histories', 'programs'], 'all pairs of current and assigned alternatives, all payload types with non-trivial lifetime',
  'tests sample a few type pairs with integers and strings and do not observe destruction under the wrong type or reading after destruction',
  ['Source/Primitives/Variant.h'], [('element dispatch', 'Source/Primitives/Variant.h: VariantElement, VariantElementPack'), ('variant', 'Source/Primitives/Variant.h: Variant')],
  T_AI + 'lifetime and value typestate of every operation over opaque alternatives', LVL)
prop('C22', 'Pairs and tuples copy element-wise and order lexicographically',
  'Copying, moving, assigning and unpacking a pair or a tuple transfers every element to the same position and touches no other, and their comparison operators agree with each other and with the lexicographic order of the elements.',
  ['inputs'], 'all element values and orderings between them',
  'tests compare a few number combinations; a wrong tie-break needs a specific pattern of equal and unequal elements',
  ['Source/Collections/Pair.h', 'Source/Primitives/Tuple.h'], [('pair', 'Source/Collections/Pair.h: Pair'), ('tuple', 'Source/Primitives/Tuple.h: Tuple, TupleElementComparison')],
  T_AI + 'value tracking over opaque elements, comparison checked for every combination of element orderings', LVL)

prop('C15', 'A function object forwards arguments and results faithfully and owns its callee',
  'Calling a function object made from a plain function, a member function, a functor, a lambda or another function object calls exactly that callee once, with the very arguments given (references refer to the same objects, values are intact), and returns its result. The stored callee is destroyed exactly once, after the last copy of the function object is gone; an empty function object stays empty through copies and signature conversion, and equality means sharing the same callee.',
  ['programs', 'histories'], 'all kinds of callee, argument passing modes and orders of copying, assigning and dropping',
  'tests use integers and do not observe ownership of captures or argument identity',
  ['Source/Primitives/Function.h'], [('function object', 'Source/Primitives/Function.h: Func, internal_invokers')],
  T_AI + 'lifetime and value tracking through the virtual invokers over opaque captures and arguments', LVL)
prop('C16', 'Invoking an event calls each attached handler exactly once, same arguments',
  'Invoking an event calls every handler that is attached at that moment exactly once with the arguments given, unless an earlier handler of the same invocation detaches it, also when handlers attach or detach handlers while running. Detaching succeeds exactly once for a handler of this event and fails without effect otherwise, a detached handler is never called again, and the attachment state reported by a handler is the true one.',
  ['histories'], 'all orders of attaching, detaching and invoking up to three handlers, in every relative placement of the handlers in memory',
  'tests attach fixed handlers once; skipped or repeated calls depend on addresses and on what handlers do while running',
  ['Source/Primitives/Event.h'], [('event', 'Source/Primitives/Event.h: Event, EventHandler')],
  T_AI + 'handler histories over arbitrary arguments and every address order', LVL)

prop('C09', 'Dictionaries and groups map each key to exactly the values stored under it',
  'A dictionary holds exactly one value per key, the last one set; a group holds, per key, exactly the values added and not removed, in order, and no key without values. Keys stay distinct and sorted, keys and values stay in step after every operation, every stored object is destroyed exactly once, and adding, removing and looking up report success truthfully: a key that is present is never added twice nor missed, and one that is absent is rejected or reported absent without any effect.',
  ['histories', 'inputs'], 'dictionaries: every operation from every valid state of any size; groups: every history of up to four additions and removals over arbitrary keys and values',
  'tests use a few integer keys in fixed order; a key and value slipping out of step or a lost object needs a particular position',
  ['Source/Collections/Dictionary.h', 'Source/Collections/List.h'], [('dictionary', 'Source/Collections/Dictionary.h: Dictionary'), ('one-to-many map', 'Source/Collections/Dictionary.h: Group')],
  T_AI + 'functional specification of each operation on abstract key/value sequences in lockstep', LVL)
prop('C11', 'Enumerators visit each element once, in order; clones and resets are independent',
  'An enumerator of any collection or lazy sequence visits every element exactly once in order, reports index 0, 1, 2, … along, then stays exhausted. After a reset it visits the same elements again from index 0. A clone taken at any point has the same position and current element, and from then on the two advance independently and may be destroyed in any order; no enumerator changes the collection it enumerates, and everything an enumerator allocates is released with it.',
  ['histories', 'programs'], 'all sources and operators and their listed compositions, over up to three arbitrary elements, cloned and reset at every position',
  'tests enumerate front to back only; cloning and resetting in the middle of a composed sequence is not exercised',
  ['Source/Collections/Interfaces.h', 'Source/Collections/OperationEnumerable.h'], [('enumerators of collections', 'Source/Collections/List.h, Dictionary.h: Enumerator'), ('lazy operators', 'Source/Collections/OperationEnumerable.h, OperationSet.h, OperationSequence.h, OperationWhere.h: *Enumerator')],
  T_AI + 'enumerator contract on every operator over opaque elements, predicates and mappings', LVL)
prop('C12', 'Lazy sequence operators and queries equal their mathematical definition',
  'Filtering, mapping, concatenating, taking, skipping, repeating, removing duplicates, reversing, pairing, set operations, flattening, grouping and materialising a sequence, alone and composed, yield exactly the elements of the defining sequence in the defining order; aggregation, counting, emptiness, first, last, extrema, quantifiers and comparison return the defined result, with an error exactly where a non-empty sequence is needed. A materialised sequence calls no predicate or mapping again. The source is left unchanged.',
  ['inputs', 'programs'], 'all operators and listed compositions over up to three arbitrary elements with arbitrary order, predicate and mapping, all integer counts',
  'tests check a few compositions on integer ranges; boundary counts (zero, negative, beyond the end) inside compositions are not reached',
  ['Source/Collections/Operation.h', 'Source/Collections/OperationEnumerable.h'], [('operators', 'Source/Collections/Operation.h: LazyList'), ('enumerators', 'Source/Collections/OperationEnumerable.h, OperationSet.h, OperationSequence.h, OperationWhere.h')],
  T_AI + 'each operator against its sequence definition over opaque elements, uninterpreted predicates, mappings and orders', LVL)
prop('C21', 'Sorting yields an ordered permutation of the input',
  'Sorting an array in place or ordering a sequence by the elements, by a key or by a comparison function yields exactly the given elements, each as often as before, in non-decreasing order, and leaves the source of an ordered sequence unchanged. Nothing outside the given range is read or written, and no element is lost or duplicated.',
  ['inputs'], 'all orders, with any ties, of up to five elements in place and three in a sequence',
  'tests sort a few fixed arrays; pivots at the ends, ties and tiny partitions are a matter of the particular order',
  ['Source/Collections/Operation.h'], [('in-place sort', 'Source/Collections/Operation.h: SortLambda, Sort'), ('ordered sequences', 'Source/Collections/Operation.h: LazyList::OrderBy, OrderBySelf, OrderByKey')],
  T_AI + 'lifetime and order analysis over opaque elements under every total preorder', LVL)
prop('C23', 'Copying between collections transfers exactly the source elements',
  'Copying the elements of one collection, sequence, pointer range or dictionary into another collection makes the target hold exactly the source elements in order (or the sorted or keyed equivalent), after its previous elements when appending and instead of them otherwise, and leaves a different source unchanged. Appending a collection to itself doubles it.',
  ['inputs', 'programs'], 'every pair of source and target kind, appending or not, up to two arbitrary elements on each side',
  'tests copy short integer ranges; elements with lifetimes, aliasing and every source/target pairing are not covered',
  ['Source/Collections/OperationCopyFrom.h'], [('copy algorithms', 'Source/Collections/OperationCopyFrom.h: copyfrom_internal, CopyFrom')],
  T_AI + 'each source/target combination against the sequence definition over opaque elements', LVL)

prop('C13', 'Each code point encodes to its standard code units, and back',
  'For every 32-bit value: encoding to UTF-8, UTF-16 (either byte order) or the wide character type yields exactly the standard code units of a Unicode code point, rejects surrogates in UTF-8 and UTF-16 and everything above 10FFFF in UTF-16, and whatever is produced decodes back to the same value. Every well-formed code unit sequence decodes to its standard code point with its exact length; a truncated sequence, an unpaired surrogate and an encoded surrogate are rejected; and for arbitrary code units decoding reads nothing beyond the given length, reports a length that was available, and never yields a surrogate from UTF-8 or UTF-16.',
  ['inputs'], 'all 2^32 values, all well-formed sequences, all code unit sequences of up to the maximum length',
  'tests convert a handful of characters; the boundaries between lengths and the surrogate area are a few values among billions',
  ['Source/Strings/Conversion.cpp'], [('code point codecs', 'Source/Strings/Conversion.cpp: UtfConversion<T>::From32, To32'), ('byte order', 'Source/Strings/Conversion.h: SwapByteForUtf16BE')],
  T_AI + 'bit-exact linear forms (floor quotients) of every codec path against the arithmetic definition of the encodings', LVL)
prop('C14', 'Text converts losslessly between encodings; readers and buffers stay exact',
  'Converting text between any two of the Unicode string types and back yields the same text, also from a slice, with exactly the standard number of code units. Text that cannot be represented ends the result there: what precedes is converted and nothing else is produced; converting into a caller buffer reports the size needed, never writes more units than given, and what it writes is the beginning of the whole result. A character reader yields the code units in order, and the index and the source range it reports for each are the true ones.',
  ['inputs'], 'all texts of up to two arbitrary code points in every pair of encodings, all buffer sizes around the needed one, every reading position',
  'tests convert fixed sample texts into large enough buffers; look-ahead in the readers and clipping depend on particular length mixes',
  ['Source/Strings/Conversion.h', 'Source/Strings/Conversion.cpp'], [('readers', 'Source/Strings/Conversion.h: UtfFrom32ReaderBase, UtfTo32ReaderBase, UtfToUtfReaderSelector'), ('buffers', 'Source/Strings/Conversion.cpp: _utftoutf, ConvertStringDirect')],
  T_AI + 'whole conversions over abstract code points, bit-exact, every case of encoded lengths', LVL)

prop('C17', 'A global storage object is created on first use, once, and finalised once',
  'The object kept by a global storage is created on first use, exactly once, and handed out from then on; finalising all global storages destroys each created one exactly once and never creates one. Afterwards a storage is created afresh on use and finalised again by the next finalisation. A storage never used is never created, and a storage object going out of scope finalises what it holds once.',
  ['histories'], 'all histories of using, testing and finalising up to five steps over several storages, including storages that use each other while initialising or finalising',
  'tests run one fixed history; a double finalisation or a storage created during finalisation needs a particular order',
  ['Source/GlobalStorage.h', 'Source/GlobalStorage.cpp'], [('registration and finalisation', 'Source/GlobalStorage.cpp: GlobalStorage, InitializeGlobalStorage, FinalizeGlobalStorage'), ('lazy access', 'Source/GlobalStorage.h: BEGIN_GLOBAL_STORAGE_CLASS')],
  T_AI + 'creation typestate over all histories of the listed operations, from the program-start values of globals', LVL)
prop('C18', 'Numbers survive printing and parsing; malformed or out-of-range text is rejected',
  'Every integer of each supported width prints as its canonical decimal text, and parsing that text, in narrow or wide characters, returns the same integer and reports success. Parsing with a success flag reports failure for text that is empty, has anything before or after the number, or names a number outside the type, and success otherwise. A printed floating point number drops only redundant zeros after the point, and converting case changes each character as the C library prescribes and leaves the source and the length unchanged.',
  ['inputs'], 'all integers of each width, all texts of up to two characters, all texts the C library prints; texts without zeros for case conversion',
  'tests print and parse a few numbers; limits, signs and trailing garbage matter only for particular texts',
  ['Source/Strings/String.cpp', 'Source/Strings/Conversion.cpp'], [('printing and parsing', 'Source/Strings/String.cpp: itoa … ftow, atoi_test … wtof_test'), ('case', 'Source/Strings/String.cpp: alower, aupper, wlower, wupper')],
  T_AI + 'printing and parsing functions over abstract integers and characters, with the C library functions replaced by their documented contracts', LVL)
prop('C26', 'Date and time agree with the calendar, in local time and UTC',
  'A date time made from a date, from a system time stamp or from the clock shows exactly the year, month, day, hour, minute, second, millisecond and day of week of that moment, in local time or UTC as requested, also while daylight saving time is in effect. Converting between local time and UTC and back returns the same moment for every local time that is neither skipped nor repeated, moving forward and backward by a number of milliseconds changes the moment by exactly that much, and comparison agrees with the order of the moments.',
  ['inputs', 'configurations'], 'all moments from the epoch, all time zone offsets and daylight saving states, all valid dates (local hours skipped or repeated by a clock change excepted)',
  'tests run in the time zone of the machine at the time of the run',
  ['Source/Primitives/DateTime.Linux.cpp', 'Source/Primitives/DateTime.cpp'], [('system time', 'Source/Primitives/DateTime.Linux.cpp: LinuxDateTimeImpl'), ('date time', 'Source/Primitives/DateTime.cpp: DateTime')],
  T_AI + 'all functions over abstract moments, with the C library time functions replaced by their contracts over an arbitrary zone', LVL)
prop('C25', 'Partial ordering groups mutual dependencies and puts dependencies first',
  'Sorting items by a dependency relation, given as a group or as a function, puts every item into exactly one component; two items share a component exactly when they depend on each other directly or indirectly, and everything an item depends on is in its own component or an earlier one. The dependencies listed for each item are exactly the given ones. With items gathered into classes the same holds for the classes under the dependencies of their members, each class listing exactly its items; a dependency on something that is no item, initialising twice and sorting twice are rejected.',
  ['inputs'], 'all dependency relations over up to three items in every order of the items and of the additions (four items in the thorough check), all assignments to up to two classes',
  'tests sort a few fixed graphs; a wrong order or component needs a particular combination of cycles and item order',
  ['Source/Collections/PartialOrdering.h', 'Source/Collections/PartialOrdering.cpp'], [('component search', 'Source/Collections/PartialOrdering.cpp: PartialOrderingProcessor'), ('relation input', 'Source/Collections/PartialOrdering.h: InitWithGroup, InitWithFunc, InitWithSubClass')],
  T_AI + 'every relation against its reachability closure, all loops followed exactly', LVL)
prop('C27', 'The test runner reports success exactly when nothing selected failed',
  'Running the registered tests runs every selected test file exactly once in order and returns success exactly when none of them failed; a failed assertion, an expected error that does not occur, any exception whatever its type and a misplaced assertion or case fail the case, every category around it and the file, are reported once, and stop neither the remaining cases nor the other files. The reported numbers of passed and run files and cases are the true ones. Options that are not understood run nothing and return failure, and a file filter selects exactly the files with that name or path ending; without suppression the failure reaches the caller.',
  ['histories', 'programs'], 'all kinds of outcome of cases, alone and in nested categories, up to three files, all listed option forms',
  'the test suite runs inside the runner: a runner that loses failures makes all tests pass',
  ['Source/UnitTest/UnitTest.cpp', 'Source/UnitTest/UnitTest.h'], [('runner', 'Source/UnitTest/UnitTest.cpp: UnitTest::RunAndDisposeTests, RunCategoryOrCase'), ('assertions', 'Source/UnitTest/UnitTest.h: TEST_ASSERT, TEST_ERROR, TEST_EXCEPTION')],
  T_AI + 'all histories of outcomes followed through the runner including exception propagation, from the program-start values of globals', LVL)

T_EFF = 'effect analysis over all library functions plus abstract interpretation (no execution, no solver): '
prop('C19', 'Threads using distinct objects, or only reading shared ones, do not interfere',
  'No library operation writes storage that it does not reach through its arguments: apart from the facilities whose purpose is state of the whole process (the registry of global storages, the test runner, the injected date time implementation, the console and the filler text generator) there is no static buffer, cache or counter, and no C library function that keeps its result in static storage is used, so threads working on distinct objects never interfere. Operations that only read an object (looking up, enumerating, comparing, copying, slicing, calling, through every collection, lazy sequence, handle, nullable, variant, tuple, function object, event invocation and string, the zero-terminated buffer of a slice excepted) write nothing of it but atomic reference counts.',
  ['schedules', 'programs'], 'every function of the library and every template instantiated by the analysis; every reading operation of every type on objects with up to two elements',
  'the tests are single threaded',
  ['Source/Strings/String.cpp', 'Source/Primitives/DateTime.Linux.cpp', 'Source/Collections/List.h', 'Source/Collections/Dictionary.h', 'Source/Primitives/Pointer.h', 'Source/Strings/String.h'], [('no static storage', 'Source/**: all functions'), ('reading operations', 'const member functions of List.h, Dictionary.h, Operation*.h, String.h, Pointer.h, Nullable.h, Variant.h, Tuple.h, Function.h')],
  T_EFF + 'writes to globals through every call, and writes to frozen objects by every reading operation', LVL)
prop('C24', 'The types refuse programs that would break the guarantees of their objects',
  'Programs that would break an invariant do not compile: owning collections (all but sorted lists) cannot be copied implicitly; events, allocators, byte maps, global storages, interfaces and enumerators can be neither copied nor moved; nothing can be changed through a constant collection; an element of a sorted list, a key, the value list of a key and a character of a string cannot be changed in place; a shared handle is made from a raw pointer only explicitly and only converts towards a base class; a variant is accessed only as one of its alternatives; a function object accepts only callables that fit its signature; strings of different character types do not mix. What is meant to be copied, moved, changed and converted can be, and comparing pairs or tuples has the weakest ordering category of the parts.',
  ['programs'], 'all programs of the listed forms, decided by overload resolution on the public interface',
  'a test suite consists of programs that compile',
  ['Source/Collections/List.h', 'Source/Collections/Dictionary.h', 'Source/Primitives/Pointer.h', 'Source/Primitives/Event.h', 'Source/Basic.h'], [('deleted operations', 'Source/Basic.h: NOT_COPYABLE; deleted members of Array, ListBase, Dictionary, Group'), ('constraints', 'Source/Primitives/Pointer.h: Ptr conversions; Function.h, Variant.h: requires clauses'), ('ordering category', 'Source/Basic.h: OrderingOf')],
  'type-level witnesses: a translation unit whose constants are the verdicts of overload resolution and access control on each program form, read from the compiled IR', LVL)
prop('C28', 'Block allocator and byte map hand out distinct stable objects and exact entries',
  'Every object a push-only allocator creates is alive, distinct from all others, stays at its address with its content, is found again under its number, and is destroyed exactly once with the allocator; a number outside those created yields null. A byte map answers for every byte the object last stored under it, null when there is none, and storing under one byte never affects another.',
  ['inputs', 'histories'], 'allocators of one to four objects per block with up to seven objects, all integer numbers; maps: every byte alone with every byte asked, every pair of bytes that differ in at most one bit, and all bytes together',
  'there are few tests of these containers; blocks and fragments collide only for particular indices',
  ['Source/Collections/List.h'], [('allocator', 'Source/Collections/List.h: PushOnlyAllocator'), ('byte map', 'Source/Collections/List.h: ByteObjectMap, bom_helper')],
  T_AI + 'histories of creations and stores followed exactly over abstract objects and integers', LVL)

prop('C20', 'Narrow and wide text convert as the locale prescribes, ASCII always unchanged',
  'Converting wide text to narrow text yields exactly the bytes the encoding of the current locale assigns to its characters, and converting narrow text to wide text yields exactly the characters they stand for; in every locale ASCII text keeps every character, in both directions and to and from each Unicode string type, also from a slice. Text with a character that has no counterpart converts to the empty text. The source is unchanged, and nothing outside the result is written: the size reported suffices, and a smaller buffer receives the beginning only.',
  ['inputs', 'configurations'], 'all texts of up to three arbitrary characters or bytes, over every encoding in which ASCII stands for itself',
  'tests run in one locale on fixed texts; a buffer one byte short or a failure taken for a length needs a character the locale cannot represent',
  ['Source/Strings/Conversion.cpp', 'Source/Strings/Conversion.Linux.cpp'], [('locale conversion', 'Source/Strings/Conversion.Linux.cpp: _wtoa, _atow'), ('string conversion', 'Source/Strings/Conversion.cpp: ConvertStringDirect, wtoa, atow')],
  T_AI + 'whole conversions over abstract texts, with the C library conversion replaced by its contract over an arbitrary locale', LVL)

prop('C29', 'Filler text stays near the expected length, in whole words, cased as asked',
  'For every expected length and at every point of the word list, filler text consists of whole words separated by single spaces, with no space at either end; a text of several words differs from the expected length by at most half a word and its space (seven characters), a single word exceeds it by at most twelve; a length of zero or less yields no words. Capital letters stand exactly where the casing asks for them. A title capitalises every word; a sentence capitalises its first word and ends with a period; a paragraph of positive length, whatever random numbers are drawn, is within fifteen characters of the expected length, ends with a period, and capitalises exactly the first word after each period. Nothing outside the result is written.',
  ['inputs', 'histories'], 'lengths 1 to 20 and selected ones to 500 through the whole word list; paragraphs of up to 45 (thorough: 80) characters over all random numbers',
  'no test covers this generator; which word ends a text depends on all earlier calls, and paragraphs depend on random numbers',
  ['Source/Strings/LoremIpsum.cpp'], [('filler text', 'Source/Strings/LoremIpsum.cpp: LoremIpsum'), ('paragraph', 'Source/Strings/LoremIpsum.cpp: LoremIpsumParagraph')],
  T_AI + 'the generator followed from program start with symbolic random numbers, trace-partitioned', LVL)
