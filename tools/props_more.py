L = S + "Collections/"
R = S + "Primitives/"
prop("C06", "List and Array are exact sequences under every history",
     "After every history of additions, insertions, removals, replacements, moves, resizes and searches a list (or array) holds exactly the elements, in exactly the order, that an ordinary sequence would, including arguments that are elements of the same list. "
     "Searches return the first match, and reported counts and return values are those of the sequence. "
     "An index or range outside the list is reported as an Error and changes nothing.",
     ["histories", "inputs"], "all histories of operations on lists and arrays of trivial, owning and shared element types, all index and range arguments",
     "The tests run a few fixed sequences on integers and strings; growth, shrinking and shifting at every capacity and every range position are not reached.",
     [L + "List.h"], [("MakeRoom, ReleaseUnnecessaryBuffer and range shifting", L + "List.h"), ("CHECK_ERROR index checks", L + "List.h")],
     ["Count, Get, Set, operator[]", "Add, Insert, Remove, RemoveAt, RemoveRange, Clear, Resize", "Contains, IndexOf"],
     "stateful model-based testing against std::vector under AddressSanitizer with lifetime-tracking elements",
     "Exploration: generated histories of up to 80 operations compared completely after each operation.",
     [("buffer, count, capacity", "elements [0, count) are constructed", L + "List.h")])

prop("C07", "SortedList is always an ordered multiset",
     "After every history of additions, removals, searches, copies and moves a sorted list holds exactly the added and not removed elements in ascending order, and an added element is reported at the index where it then is. "
     "Contains, IndexOf and Remove find an element exactly when an equal one is present, IndexOf reports the first of several equal ones, also when looking up by a comparable key type. "
     "Elements that cannot be ordered, and indices out of range, are rejected with an Error and change nothing.",
     ["histories", "inputs"], "all histories of operations on sorted lists of integers, doubles with NaN, strings, tracked objects and pointers",
     "The tests add and remove a dozen distinct integers; runs of equal elements, all insertion positions and partial orders are not reached.",
     [L + "List.h"], [("binary search in SortedListBase/SortedList", L + "List.h")], ["Add, Remove, RemoveAt, RemoveRange, IndexOf, Contains, Get, Count"],
     "stateful model-based testing against a sorted std::vector",
     "Exploration: generated histories of up to 80 operations compared completely after each operation.")

prop("C08", "Dictionary is a map ordered by key",
     "After every history of Add, Set, Remove, Clear, moves and lookups a dictionary maps each key to the value last stored for it; keys and values stay paired and are listed and enumerated in ascending key order. "
     "Adding a key that is present and reading a key that is absent are reported as an Error and change nothing; Remove returns whether the key was there. "
     "Enumerators visit every pair once, also after Reset and from a Clone.",
     ["histories", "inputs"], "all histories of operations on dictionaries with integer, string and owning keys and values",
     "The tests use a few integer keys; keys inserted at and removed from every position, aliased arguments and enumerator copies are not reached.",
     [L + "Dictionary.h"], [("parallel sorted keys and values", L + "Dictionary.h")], ["Add, Set, Remove, Get, Keys, Values, enumeration"],
     "stateful model-based testing against std::map",
     "Exploration: generated histories of up to 80 operations, all keys looked up after each.")

prop("C09", "Group is a multimap ordered by key",
     "After every history of additions and removals a group maps each key to exactly its values in the order they were added, lists keys in ascending order, and contains no key without values; Count is the number of keys. "
     "Remove of a key or of a key and value returns whether something was removed and removes nothing else; reading an absent key is an Error; enumeration visits every pair once, also after Reset and from a Clone. "
     "Joining two groups visits the keys of both, each exactly once in ascending order, with all values of either side.",
     ["histories", "inputs"], "all histories of operations on groups with integer, string and owning keys and values, all pairs of groups",
     "The tests use a few keys; the interplay of removed values, emptied keys and enumeration is not reached.",
     [L + "Dictionary.h", L + "OperationPair.h", L + "Operation.h"], [("sorted keys with owned value lists", L + "Dictionary.h"), ("GroupInnerJoin merge loop", L + "Dictionary.h")],
     ["Add, Remove, Contains, Get, GetByIndex, Keys, Count, enumeration", "GroupInnerJoin"],
     "stateful model-based testing against std::map of std::vector",
     "Exploration: generated histories of up to 80 operations.")

prop("C10", "Containers construct and destroy every element exactly once",
     "Whatever sequence of operations is applied to containers and value wrappers, each element in them is constructed exactly once, lives at one address between its construction and destruction or move, and is destroyed exactly once when removed, replaced or when its container goes away. "
     "At any time the number of living elements equals the number the containers report, also after operations that were rejected with an Error, and no memory is leaked, read after release or read uninitialised.",
     ["histories"], "all histories of operations on lists, arrays, sorted lists, dictionaries, groups, nullables, variants, tuples and nestings of them",
     "The tests mostly use integers and strings for which a missed or doubled construction is invisible.",
     [L + "List.h", L + "Dictionary.h", R + "Nullable.h", R + "Variant.h", R + "Tuple.h", S + "Basic.h"], [("memory_management::CallDefaultCtors/CallCopyCtors/CallMoveCtors/CallDtors", L + "List.h")],
     ["constructor and destructor calls of user types", "heap balance"],
     "stateful generation with lifetime-tracking elements, census oracle and AddressSanitizer",
     "Exploration: up to 60 operations per case over a set of containers.")

prop("C11", "Sorting yields an ordered permutation for every input",
     "Sorting any sequence with any consistent comparison (strong, weak or partial ordering) yields a permutation of the elements in which no later element is less than an earlier one, touches nothing outside the given range, and terminates. "
     "If the comparison throws, the elements are still a permutation of the original ones; elements that are incomparable under a partial ordering are grouped, or rejected with an Error, as documented.",
     ["inputs", "fault_sequences"], "all arrays, all comparison kinds, all points at which a comparison throws",
     "The tests sort a few short arrays.",
     [L + "Operation.h", L + "OperationEnumerable.h"], [("SortLambda quick sort", L + "Operation.h"), ("OrderBy, OrderByWith*", L + "Operation.h")],
     ["Sort, SortLambda, OrderBy family"],
     "property-based testing: order, multiset and boundary oracles with throwing comparators",
     "Exploration: seven input shapes up to 300 elements, and larger ones up to 131074.")

prop("C12", "Query pipelines yield exactly the defined sequence, lazily",
     "A pipeline of query operations (Select, Where, Take, Skip, Repeat, Distinct, Reverse, Concat, Union, Intersect, Except, OrderBy, Pairwise, SelectMany, GroupBy, Evaluate, Cast, FindType, with counts of any size) over any source yields exactly the sequence its definition gives, every time it is iterated, and leaves its sources unchanged. "
     "Aggregates (Count, IsEmpty, First, Last, Max, Min, Aggregate, All, Any) agree with that sequence, with an Error for an empty one where no default is given. "
     "User functions run only when and as often as iteration needs them: a lazy list iterated after its sources changed reflects their content then, while evaluated results are independent of later changes to the source.",
     ["programs", "inputs"], "all compositions of query operations over all kinds of collections",
     "The tests apply each operation once to a fixed short list.",
     [L + "Operation.h", L + "OperationSelect.h", L + "OperationWhere.h", L + "OperationConcat.h", L + "OperationSequence.h", L + "OperationSet.h", L + "OperationPair.h", L + "OperationEnumerable.h"],
     [("LazyList and the enumerators behind it", L + "Operation.h")], ["iteration", "aggregates", "calls of user functions"],
     "generated pipelines (programs) compared with an eager reference evaluator",
     "Exploration: pipelines of up to about a dozen operations.")

prop("C13", "Every enumerator is an independent cursor",
     "An enumerator obtained from any container or query yields the sequence in order with Index counting from -1 before the first element, and Next keeps returning false after the end. "
     "Reset returns it to the start, a Clone continues from the same position with the same current element, and driving one enumerator never changes another one or the collection.",
     ["histories", "programs"], "all interleavings of Next, Current, Index, Reset and Clone over enumerators of all containers and pipelines",
     "The tests only iterate from start to end.",
     [L + "Interfaces.h", L + "List.h", L + "Dictionary.h", L + "OperationSelect.h", L + "OperationWhere.h", L + "OperationConcat.h", L + "OperationSequence.h", L + "OperationSet.h", L + "OperationPair.h", L + "OperationEnumerable.h"],
     [("IEnumerator<T>::Clone/Reset/Index/Next of every enumerator", L + "Interfaces.h")], ["Next, Current, Index, Reset, Clone, Evaluated"],
     "stateful model-based testing of cursors over generated pipelines",
     "Exploration: up to 5 enumerators driven in a random interleaving.")

prop("C14", "Copying, comparing and iterating collections agree",
     "Copying any collection or range into any container, replacing or appending, leaves the source unchanged and gives the target exactly the expected content (by key for maps, by order for sorted lists, by character for text); a list or array appended to itself holds its content twice. "
     "Comparing two collections is the lexicographic comparison of their elements, and range-for and indexed loops visit each element exactly once in order with its index, whatever the kinds of collections.",
     ["inputs", "configurations"], "all combinations of source and target kinds, contents and append modes",
     "The tests copy between a few kinds with three elements.",
     [L + "OperationCopyFrom.h", L + "OperationForEach.h", L + "OperationEnumerable.h", L + "OperationString.h", L + "Operation.h"], [("CopyFrom algorithm selection by collection kind", L + "OperationCopyFrom.h"), ("CompareEnumerable", L + "OperationEnumerable.h")],
     ["CopyFrom", "CompareEnumerable", "range-for, indexed"],
     "property-based testing over the matrix of collection kinds with std containers as oracle",
     "Exploration: sequences of up to 20 elements.")

prop("C15", "Partial ordering sorts dependencies first and groups exactly the cycles",
     "For every dependency relation, the sorted components partition the items; each component is exactly a set of mutually reachable items, and a component comes after all components its items depend on, whatever the order of the input. "
     "The recorded in and out edges of every item are exactly the given relation, and a dependency on an unknown item is reported as an Error.",
     ["inputs"], "all directed graphs including cycles and self loops, all orders of the items",
     "The tests contain about ten fixed graphs.",
     [L + "PartialOrdering.h", L + "PartialOrdering.cpp"], [("Initialize, InitWithFunc, InitWithGroup, InitWithSubClass", L + "PartialOrdering.h"), ("Sort", L + "PartialOrdering.h")],
     ["nodes, components, firstNode/nodeCount, ins/outs"],
     "property-based testing against transitive closure",
     "Exploration: random graphs of up to 14 items in seven shapes, and larger ones (chains of up to thousands).")

prop("C16", "Shared objects die exactly when their last owner goes",
     "Whatever owners are copied, moved, converted along the class hierarchy, cast, reset, captured, stored in containers or in the objects themselves, an object owned by smart pointers lives as long as an owner exists and is destroyed exactly once when the last one goes. "
     "Casting yields the same object or null according to its dynamic type; comparison is by object identity; a moved-from pointer is empty. "
     "A detached object is handed to the caller without being destroyed, and custom counting (intrusive counters, COM-style release) keeps the same rules.",
     ["histories"], "all histories of operations over owners of different static types, in variables, containers, closures and objects",
     "The tests check a few fixed histories on one static type.",
     [R + "Pointer.h", R + "Function.h"], [("reference counter with original reference and destructor", R + "Pointer.h"), ("Inc/Dec", R + "Pointer.h")],
     ["destructor calls", "operator bool, ->, Obj, Cast, Detach, comparison"],
     "stateful model-based testing against a reference counting model under AddressSanitizer",
     "Exploration: up to 70 operations per history.",
     [("counter", "number of owners of the object", R + "Pointer.h")])

prop("C17", "Values that share storage internally can be used from different threads",
     "Threads that each use only their own strings, numbers as text, smart pointers, functions, lists and date times never interfere, even when these values are copies with common storage: every value stays intact, and shared objects are destroyed exactly once after the last thread lets go, without data races. "
     "Collections and queries that several threads only read give the right answers to all of them.",
     ["schedules", "histories"], "all interleavings of up to four threads copying, using and releasing values with common originals",
     "The tests are single threaded.",
     [S + "Basic.h", R + "Pointer.h", S + "Strings/String.h", R + "Function.h"], [("atomic_vint counters with INCRC/DECRC", S + "Basic.h")],
     ["values read by the threads", "destructor calls", "ThreadSanitizer reports"],
     "randomised multi-threaded programs under ThreadSanitizer with value, destruction and heap balance oracles",
     "Exploration of schedules: repeated generated programs on real threads; schedules are sampled, not enumerated.",
     [("atomic counters", "owners of a shared buffer, object or invoker", S + "Basic.h")])

prop("C18", "Func calls exactly its target and Event exactly its handlers",
     "A Func made from a function, method, lambda or other Func calls exactly that target with exactly the given arguments (lvalues by reference, rvalues moved at most once) and returns its result; copies share the target and its state, conversions adapt arguments and result. "
     "An event calls every attached handler once per raise with all arguments intact and no detached handler; attaching and detaching report success exactly when they change something, also from inside handlers while the event is being raised: who stays attached is called once, who is detached is not called any more. "
     "Captured state is released exactly when the last Func or handler that owns it goes.",
     ["histories", "inputs"], "all histories of copying, converting, comparing, attaching, detaching and calling; lvalue and rvalue arguments of all kinds",
     "The tests call each form once with trivially copyable arguments.",
     [R + "Function.h", R + "Event.h"], [("internal_invokers", R + "Function.h"), ("Event handler list", R + "Event.h")],
     ["calls received by targets", "return values", "Add, Remove, operator()"],
     "stateful model-based testing with argument-lifetime tracking",
     "Exploration: generated histories; the order in which handlers run is not asserted.")

prop("C19", "Nullable and Variant always hold exactly the value last given",
     "After every history of construction, assignment, conversion, move and reset, a nullable is empty or holds the value last given, and a variant holds exactly one value of the alternative last chosen, also when the value given is a part of the value it replaces; reading any other alternative, or the value of an empty nullable, is reported as an Error (TryGet and pointers yield null). "
     "Visiting calls exactly the matching callback once. Comparisons follow the contained values with empty ordered first, and values are correctly aligned, constructed and destroyed exactly once.",
     ["histories", "inputs"], "all histories of operations on several nullables and variants with owning, over-aligned, non-assignable and differently sized alternatives",
     "The tests go through a few fixed transitions with strings and integers.",
     [R + "Nullable.h", R + "Variant.h"], [("VariantElement buffer and index", R + "Variant.h"), ("Nullable buffer and flag", R + "Nullable.h")],
     ["Get, TryGet, Index, Apply, TryApply, operator bool, Value, Reset, comparisons"],
     "stateful model-based testing with tracked alternatives under AddressSanitizer and alignment checks",
     "Exploration: up to 50 operations per history.")

prop("C20", "Tuple and Pair keep and compare components faithfully",
     "A tuple or pair holds exactly the components it was given, in every form of construction, conversion, copy, move and assignment, with reference components bound to the original objects, which no conversion changes. "
     "Equality and ordering are component-wise lexicographic with the strength of the weakest component, consistent with each other and also across tuples of different component types.",
     ["inputs", "histories"], "all component values (including NaN) of tuples with 1 to 4 components and of pairs",
     "The tests compare a few fixed tuples.",
     [R + "Tuple.h", L + "Pair.h"], [("TupleElement inheritance and compare helpers", R + "Tuple.h")], ["get, key/value, structured binding, comparisons"],
     "property-based testing against std::tuple",
     "Exploration: generated triples of tuples biased to shared prefixes.")

prop("C21", "Date and time arithmetic is exact",
     "For every moment in the supported years, a date time's fields, day of week and millisecond count agree with the proleptic Gregorian calendar; rebuilding it from its fields or its internal value gives the same moment, and comparison follows time. "
     "Forward and Backward move by exactly the given number of milliseconds across any boundary and are inverse to each other. "
     "Converting to UTC and back gives the same moment, differing by exactly the zone's offset at that time, also around a daylight saving switch.",
     ["inputs", "configurations"], "all moments in the years 1601 to 2500, all time zones including daylight saving time",
     "The tests use a handful of dates in the zone of the machine.",
     [R + "DateTime.h", R + "DateTime.cpp", R + "DateTime.Linux.cpp"], [("ConvertTMToDateTime, FromOSInternal, UtcToLocal, LocalToUTC", R + "DateTime.Linux.cpp")],
     ["DateTime fields", "Forward, Backward, ToLocalTime, ToUtcTime, FromDateTime, FromOSInternal, comparisons"],
     "property-based testing against independent civil-calendar arithmetic in generated time zones, plus an enumeration of every day",
     "Exploration; exact around daylight saving switches, except for local times that the clocks skip or repeat. Two known findings (raw unsigned counters before 1970; UTC times whose fields the local clocks skip).")

prop("C22", "Global storages initialise on first use and are finalised once",
     "A global storage is constructed on first access and not before, keeps its value between accesses, and is finalised exactly once, by explicit finalisation, by finalising all storages, or at process exit, and is constructed afresh if it is accessed again. An initialisation that throws reaches the user and is tried again at the next access. "
     "This holds in every order of first access, with storages that use each other, and finalisation of all of them never misses one or touches one that was not created.",
     ["histories", "configurations"], "all histories of accesses and finalisations of several storages, up to and including process exit",
     "The tests use one storage in one order.",
     [S + "GlobalStorage.h", S + "GlobalStorage.cpp"], [("GlobalStorage registration list and FinalizeGlobalStorage", S + "GlobalStorage.cpp")],
     ["Initialize/Finalize blocks run", "values of the storage variables"],
     "stateful model-based testing in child processes",
     "Exploration: up to 25 operations on six storages per history.")

prop("C23", "The unit test framework reports exactly what happened",
     "For every tree of test files, categories and cases and every command line, each selected body runs exactly once in order, a failing assertion or escaping error marks its case as failed without stopping the others (debugger mode aside), and misuse (nesting errors, assertions outside of cases, missing expected errors) is reported. "
     "The exit code is zero exactly when everything that ran passed, the report names every file (skipped ones as such), category, case and failure message in order and nested by indentation, the totals printed are the true ones, and a file filter selects exactly the matching files.",
     ["programs", "configurations"], "all generated test programs and command lines",
     "The framework's own tests cannot observe its exit code, its totals or failing runs.",
     [S + "UnitTest/UnitTest.h", S + "UnitTest/UnitTest.cpp", S + "UnitTest/UnitTest.Linux.cpp"], [("UnitTest::RunAndDisposeTests and the context stack", S + "UnitTest/UnitTest.cpp")],
     ["exit code", "printed totals", "statements executed"],
     "generated test programs run in child processes against a model of the framework",
     "Exploration: up to twelve files per program.")

prop("C24", "Generated filler text has the requested shape",
     "For every requested size and casing the generator ends and returns text whose length is as close to the requested size as whole words allow (within a few characters for a paragraph), made of words of Latin letters separated by single spaces (and sentence punctuation), cased as asked. "
     "Titles, sentences and paragraphs begin with a capital letter where asked and paragraphs end with a period.",
     ["inputs"], "all sizes (including negative and zero), casings and random states",
     "The tests only print one sample.",
     [S + "Strings/LoremIpsum.h", S + "Strings/LoremIpsum.cpp"], [("LoremIpsum and LoremIpsumParagraph", S + "Strings/LoremIpsum.cpp")], ["the returned text"],
     "property-based testing with a controlled random source",
     "Exploration: sizes up to 3000.")

prop("C25", "Allocated objects and byte maps never overlap or lose data",
     "Objects created by a push-only allocator are default constructed, never overlap, keep their addresses and contents while further objects are created, for every block size, and are all destroyed exactly once with the allocator. "
     "A byte-keyed map returns for every byte exactly the value last set in that map, null for all others, however many maps share one allocator.",
     ["histories", "inputs"], "all histories of creations, block sizes and byte keys",
     "The tests do not cover the allocator at block boundaries or maps sharing it.",
     [L + "List.h", L + "Dictionary.h"], [("PushOnlyAllocator block list", L + "List.h"), ("ByteObjectMap radix tree", L + "List.h")],
     ["Create, operator[]", "Set, Get"],
     "stateful model-based testing under AddressSanitizer",
     "Exploration: up to 400 objects or 600 map operations per case.")

prop("C26", "The console writes and reads exactly the given text",
     "In a UTF-8 environment, writing text to the console by pointer, by pointer and length, by string or by line emits exactly those characters in order (zero characters aside), and changing colour emits the matching escape sequence without touching the text. "
     "Reading returns the lines of the input one by one, complete and without their line feed, and empty text after the end.",
     ["inputs", "histories"], "all texts and sequences of console operations",
     "The tests never look at the console output.",
     [S + "Console.h", S + "Console.cpp", S + "Console.Linux.cpp"], [("Console::Write over std::wcout", S + "Console.Linux.cpp")], ["bytes on standard output", "Console::Read"],
     "property-based testing in child processes with captured standard streams",
     "Exploration: up to 20 operations per case.")

prop("C27", "The amalgamated release behaves like the sources",
     "The single-file distribution (one header and its implementation files) offers the same declarations as the source tree and fulfils every property listed here for the source tree: strings, conversions, collections, queries, smart pointers, functions, values, dates, storages, the test framework and the console.",
     ["inputs", "histories", "programs"], "everything the other properties quantify over, on the code in Release/",
     "The tests are only built against Source/.",
     ["Release/Vlpp.h", "Release/Vlpp.cpp", "Release/Vlpp.Linux.cpp"], [("generated copy of Source/", "Release/Vlpp.h")], ["as in the other properties"],
     "all other generated-input checks compiled against the amalgamated files",
     "Exploration with a tenth of the cases of the other checks.")

prop("C28", "Exceptions thrown by user code pass through and leave no damage",
     "When a function, comparison, callback, handler or loop body supplied by the user throws inside a query, aggregate, loop, copy, comparison of sequences, sort, join, Func call, event raise, variant visit or dependency analysis, exactly that exception reaches the caller. An Error, Exception or ArgumentException carries exactly the texts it was given. "
     "Sources, groups, handlers and variants are as before, a sorted buffer still holds all of its elements, nothing is leaked or destroyed twice, and running the same operation again without the exception gives the right result.",
     ["fault_sequences", "histories"], "all points (numbers of calls) at which a user supplied function throws, in all pipelines and call forms",
     "The tests never throw from user functions.",
     [L + "Operation.h", L + "OperationForEach.h", L + "OperationSet.h", L + "OperationCopyFrom.h", R + "Function.h", R + "Event.h", R + "Variant.h"],
     [("ownership of enumerators while user code runs", L + "Operation.h")],
     ["exceptions caught by the caller", "content of sources and results", "live elements and heap balance"],
     "fault injection at a generated call number into generated pipelines and call forms, against the reference sequence, tracked elements and the heap balance",
     "Exploration: the point of the exception is drawn per case; element copy constructors that throw are not covered.")
