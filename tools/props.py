import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
C="frozen-collections-core/src/"
p("C01","Construction keeps exactly the last entry given for every distinct key",
"A frozen map or set built at run time from any sequence of entries holds exactly the distinct keys of that sequence, each with the last entry supplied for it, and nothing else. This holds for every construction path (vector, array, iterator, explicit hasher, empty default), every number of entries, every key distribution, and every value the hash randomness can take, including hashers that make keys collide.",
["inputs","configurations","fault_sequences"],"all entry sequences x construction paths x hash seeds and collision patterns x misbehaving input iterators (wrong size hints, end-then-resume)",
"Tests build a few dozen hand-picked key sets with one hash seed and almost no duplicates; the layout depends on size, key range, string shape and per-process random hash seeds, so most layouts are never built.",
[C+"fz_maps",C+"fz_sets",C+"utils/dedup.rs",C+"analyzers",C+"hash_tables/hash_table.rs",C+"utils/eytzinger.rs",C+"maps"],
[("last-entry-wins deduplication",C+"utils/dedup.rs"),("strategy analysis",C+"analyzers"),("slot table construction",C+"hash_tables/hash_table.rs"),("eytzinger layout",C+"utils/eytzinger.rs")],
["len/is_empty","get/contains of every supplied key and of absent neighbours","iteration"])
p("C02","An interrupted construction releases every entry once and leaves nothing behind",
"If building a collection is cut short at any instant, because user code it calls (hashing, comparing, cloning, converting, iterating) panics or because an allocation fails, the failure propagates to the caller, every key and value handed over is released exactly once, and no memory stays allocated. Other live collections are unaffected, and building the same collection again without the fault succeeds.",
["fault_sequences","crash_points","inputs"],"every callback and allocation during construction as the interruption point x all entry sequences x construction paths",
"No existing test injects a panic or an allocation failure into construction.",
[C+"fz_maps",C+"fz_sets",C+"utils/dedup.rs",C+"hash_tables/hash_table.rs",C+"analyzers/hash_code_analyzer.rs"],
[("entries always owned by a Vec or Box while user code runs",C+"utils/dedup.rs"),("two-phase table build",C+"hash_tables/hash_table.rs")],
["drop ledger of keys and values","allocator ledger","re-construction"])
p("C03","Any history of map operations agrees with a plain reference map",
"Starting from any construction, every sequence of lookups, value updates, iterations, comparisons and default/replace operations over any number of simultaneously live maps returns exactly what a plain ordered map from keys to values would return. Keys never change, updates are visible to every later operation on that map and to no other map, and lookups through a different but equivalent key type agree with lookups through the key type itself.",
["histories","inputs","configurations"],"all finite operation histories over several interleaved maps x key sets x hash seeds and collision patterns x query key types",
"Tests run one fixed sequence of calls on small maps; no test interleaves several maps, mixes update paths, or varies the hash seed.",
[C+"maps/decl_macros.rs",C+"fz_maps",C+"maps",C+"hash_tables"],
[("lookup functions of each strategy",C+"maps/decl_macros.rs"),("hash probing",C+"hash_tables/decl_macros.rs"),("eytzinger search",C+"utils/eytzinger.rs"),("string range hashers",C+"hashers")],
["return value of every operation","full audit of contents between operations"])
p("C04","An operation interrupted by panicking user code leaves collections unchanged",
"If user code called during a lookup, comparison, iteration, set operation, formatting or serialization panics at any instant, the panic reaches the caller, and every live collection still has exactly the contents it had before the operation (apart from updates the caller itself already made through a reference it was given). Every later operation behaves as if the interrupted one had not been attempted.",
["fault_sequences","histories","crash_points"],"every user callback invoked by every operation as the panic point x operation histories",
"No existing test makes a key or value callback panic.",
[C+"maps/decl_macros.rs",C+"sets/decl_macros.rs",C+"sets/iterators.rs",C+"maps/iterators.rs",C+"traits/set_ops.rs"],
[("read paths never move or modify entries",C+"maps/decl_macros.rs"),("no interior mutability",C+"hash_tables")],
["audit of all live maps and sets after each interrupted operation"])
p("C05","Simultaneous mutable lookups never hand out the same value twice",
"Asking a map for mutable access to several values at once returns, position by position, the value of each present key and nothing for each absent key, and never returns two references to the same stored value. If the request would require that, because keys repeat or are different but equivalent to the same stored key, the call panics and changes nothing; it does not panic otherwise.",
["inputs","histories","fault_sequences"],"all key arrays (present, absent, repeated, distinct but equivalent) x map strategies x panics inside hashing and comparison",
"Tests call it with one duplicate-free array and one duplicated key on a few strategies, never with equivalent but unequal query keys.",
[C+"maps/decl_macros.rs",C+"utils/dedup.rs",C+"traits/map_extras.rs",C+"fz_maps"],
[("duplicate detection before handing out references",C+"maps/decl_macros.rs"),("duplicate scan",C+"utils/dedup.rs")],
["addresses and values of returned references","map contents afterwards"])
p("C06","Every iterator yields each remaining item exactly once, however driven or cut",
"Every iterator over entries, keys or values, borrowing, mutating or consuming, yields each item of the collection exactly once in some order, whether driven item by item, by folding, by counting, by skipping, or by a mixture. At every instant its reported size brackets what it still yields (exactly, for all iterators that report an exact length), a clone continues independently from the same point, an exhausted iterator stays exhausted, and abandoning or panicking out of an iteration affects nothing but that iterator.",
["histories","schedules","crash_points"],"all interleavings of next/size/clone/nth/fold/count over several live iterators x cut points x collections",
"Tests drain iterators once from the start; none checks size bounds, clones or folds after partial consumption.",
[C+"maps/iterators.rs",C+"sets/iterators.rs"],
[("slice-backed iterators",C+"maps/iterators.rs"),("set iterators and set-operation iterators",C+"sets/iterators.rs")],
["items, size_hint, len, clone contents at each step"])
p("C07","Every key and value is released exactly once over a collection's whole life",
"Whatever sequence of building, cloning, updating, partially consuming, moving and dropping collections a program performs, and wherever a panic in user code (including in a destructor) interrupts it, each key and value is destroyed exactly once and never used after that. When the last owner is gone no memory obtained for the collections remains allocated.",
["histories","fault_sequences","crash_points"],"all lifecycle histories x interruption points in clone, drop and closures passed to consuming iterators x allocation failures",
"Existing tests use types without destructors and never observe drops.",
[C+"maps/iterators.rs",C+"sets/iterators.rs",C+"maps/decl_macros.rs",C+"utils/dedup.rs",C+"hash_tables/hash_table.rs",C+"fz_maps",C+"fz_sets"],
[("owned iteration over boxed entries",C+"maps/iterators.rs"),("removal of duplicate entries",C+"utils/dedup.rs")],
["per-instance drop ledger","allocator ledger at the end of each run"])
p("C08","Set membership and set algebra agree with mathematical sets",
"For any two sets, of the same or of different implementations (frozen or standard), membership, union, intersection, difference, symmetric difference, the corresponding operators, subset, superset, disjointness and equality tests give exactly the mathematical result, with no element repeated or lost. This holds for every relative size and overlap, at every point of a partially consumed, cloned or interrupted set-operation iterator, whose size bounds always bracket what it still yields.",
["histories","inputs","configurations","fault_sequences"],"all pairs of sets and implementations x overlap patterns x iterator scripts x hash seeds x panics in callbacks",
"Tests check a few fixed overlapping sets of the same implementation from the start of the iteration.",
[C+"sets/iterators.rs",C+"traits/set_ops.rs",C+"sets/decl_macros.rs",C+"fz_sets"],
[("set-operation iterators",C+"sets/iterators.rs"),("subset/superset/disjoint",C+"traits/set_ops.rs"),("operators",C+"sets/decl_macros.rs")],
["results of all set operations","size_hint at each step"])
p("C09","Concurrent readers of shared collections always see the collection's contents",
"Frozen collections of shareable keys and values can be shared between threads and moved across threads. Under every interleaving of readers inside lookups, iterations, comparisons, set operations and clones, including readers that stall, panic mid-operation, or re-enter the collection from their own callbacks, each read returns what it would return alone, and no reader can make another wait or fail.",
["schedules","fault_sequences","histories"],"all interleavings of reader threads at user-callback and operation boundaries x reader panics, stalls and re-entrant reads x collections",
"No existing test uses more than one thread.",
[C+"maps",C+"fz_maps",C+"fz_sets",C+"hash_tables",C+"hashers"],
[("no interior mutability or shared global state in read paths",C+"maps/decl_macros.rs")],
["result of every read","bounded number of scheduler steps","Send/Sync of the public types"])
p("C10","Serializing or formatting into a failing sink reports the failure and never lies",
"Serializing a collection to any sink produces, when it reports success, a document that declares the true number of entries and contains each of them exactly once with its key paired with its own value. When the sink fails, fills up, or an element refuses to be serialized, at any instant, the error is returned to the caller, nothing further is sent to the sink, what was accepted is a prefix of the fault-free output, and the collection is unchanged; the same goes for debug formatting.",
["fault_sequences","crash_points","inputs"],"every sink failure point (short write, interruption, error, full disk, element error) x collections",
"Tests serialize a few collections into a String that cannot fail.",
[C+"maps/decl_macros.rs",C+"sets/decl_macros.rs",C+"fz_maps",C+"fz_sets"],
[("Serialize implementations",C+"maps/decl_macros.rs"),("set Serialize implementations",C+"sets/decl_macros.rs"),("Debug implementations",C+"maps/decl_macros.rs")],
["sink contents","returned error","recorded serializer event stream"])
p("C11","Deserializing from a damaged source gives the exact contents or an error",
"Reading a collection from any source, delivered in any chunking and with any interruption, truncation, corruption, I/O error, element error or false size announcement, either yields exactly the last-entry-wins contents of the entries the source delivered or returns an error when the source did not deliver a complete valid document. It never panics of its own accord, never reserves memory out of proportion to the data actually delivered, and leaks nothing on failure.",
["fault_sequences","inputs","crash_points"],"every corruption/truncation/error point x chunkings x size hints x formats (text and length-prefixed binary) x key and value types",
"Tests parse a few small valid JSON literals held fully in memory.",
[C+"fz_maps",C+"fz_sets"],
[("Deserialize visitors",C+"fz_maps/fz_hash_map.rs"),("string visitors",C+"fz_maps/fz_string_map.rs"),("set visitors",C+"fz_sets/fz_hash_set.rs")],
["result of deserialization","drop ledger","allocator peak"])
p("C12","A stored collection is restored identically, and a torn image never restores",
"A collection written out completely can be read back as any compatible frozen or standard collection type and is then equal to the original, entry for entry, for every hash seed in either process. If a crash leaves only a proper prefix of the stored image, reading it back reports an error rather than a smaller or different collection.",
["crash_points","histories","configurations"],"every crash point while storing x source and target types x hash seeds before and after restart x key/value contents (including escapes, empty and multi-byte strings, extreme integers)",
"Round trips in tests use one small map per type, unescaped ASCII keys and no crash.",
[C+"fz_maps",C+"fz_sets",C+"maps/decl_macros.rs",C+"sets/decl_macros.rs"],
[("Serialize/Deserialize pairs",C+"fz_maps"),("set Serialize/Deserialize pairs",C+"fz_sets")],
["equality of restored collection with the model","error on every proper prefix"])
p("C13","Clones are equal, independent, and safe to interrupt",
"A clone of a collection has the same contents, and later updates, consumption or destruction of either one never affects the other. If cloning is interrupted by a panicking element clone or a failed allocation at any instant, the original is unchanged and usable and every already cloned element is released exactly once.",
["fault_sequences","histories","crash_points"],"every element clone and allocation as interruption point x subsequent histories on both copies",
"Tests clone small maps of integers and compare them once.",
[C+"maps",C+"fz_maps",C+"fz_sets",C+"hash_tables"],
[("derived Clone over owned boxed entries",C+"hash_tables/hash_table.rs"),("enum of strategies cloned as a whole",C+"fz_maps/fz_scalar_map.rs")],
["contents of both copies over the following history","drop ledger"])
p("C14","What a collection contains never depends on hash randomness or chosen strategy",
"Two collections built from the same entries, possibly reordered among distinct keys, with different hash seeds, different hash functions, different implementations or in different processes, give the same answers to the same history of operations and compare equal in both directions; collections with different contents compare unequal. This includes comparison with the standard collections.",
["configurations","histories","inputs"],"all pairs of hash seeds / hashers / implementations x entry orders x histories",
"Each test process uses one seed, and unit tests of the core crate replace the random hasher by a fixed one.",
[C+"hashers",C+"hash_tables",C+"analyzers",C+"maps/decl_macros.rs",C+"sets/decl_macros.rs",C+"lib.rs"],
[("default random hasher",C+"lib.rs"),("equality by lookup",C+"maps/decl_macros.rs"),("range hashers chosen by seeded analysis",C+"analyzers/slice_key_analyzer.rs")],
["lockstep comparison of replicas","== in both directions"])
p("C15","Inconsistent user trait implementations never break memory safety",
"Even if the user's equality, ordering, hashing, scalar index, string conversion, cloning or iterator size hint is inconsistent or changes from call to call, safe use of the collections never reads or writes outside them, never touches a destroyed key or value, never destroys one twice, and never yields two simultaneous mutable references to one value. Wrong answers, panics and non-termination are acceptable in that case; undefined behaviour is not.",
["fault_sequences","histories","inputs"],"all answer sequences of adversarial trait implementations x operation histories",
"All tests use well-behaved key types.",
[C+"maps/decl_macros.rs",C+"maps/dense_scalar_lookup_map.rs",C+"maps/sparse_scalar_lookup_map.rs",C+"hash_tables/decl_macros.rs",C+"utils"],
[("bounds established from the stored data, not from user answers",C+"maps/dense_scalar_lookup_map.rs"),("masking of hash codes",C+"hash_tables/decl_macros.rs")],
["checked memory accesses","canaries and drop ledger","addresses of references"])
p("C16","Every operation finishes within a bounded number of steps and bounded memory",
"For consistent keys, every operation finishes after a bounded number of callbacks into user code: at most proportional to the number of entries for a lookup and to its square for construction, for every hasher including one that maps all keys to one code, and every comparison of ordered keys stays logarithmic per lookup. The memory a collection occupies and the peak reached while building it stay proportional to the entries supplied, never to the span of the key values.",
["inputs","configurations","fault_sequences"],"all key distributions (including extreme spans and boundaries) x adversarial hashers x sizes",
"Tests never count steps or bytes and use spans small enough that a table over the whole span would pass.",
[C+"analyzers/scalar_key_analyzer.rs",C+"analyzers/hash_code_analyzer.rs",C+"utils/dedup.rs",C+"utils/eytzinger.rs",C+"hash_tables"],
[("span limit for lookup tables",C+"analyzers/scalar_key_analyzer.rs"),("table growth limit",C+"analyzers/hash_code_analyzer.rs")],
["callback counts per operation","allocator peak and live bytes per operation"])
p("C17","Collections built at compile time behave like run-time ones for every build seed",
"A collection produced by the macros or by the build-script emitter, from literal or expression keys, compiles and then gives the same answers as a plain reference map or set built from the same entries (last entry wins) over any history of operations, interruptions and shared use. This holds for every number of entries, key type, key distribution and build-time hash seed, and the run-time hashing of a query always agrees with the layout computed at build time. (Key expressions that turn out equal only at run time may be refused with a panic.)",
["programs","configurations","histories","fault_sequences"],"all macro/emitter inputs x build-time random seeds x operation histories with injected faults",
"Tests compile a fixed list of small literals with one pinned build seed; most sizes, spans and collision patterns are never generated.",
[C+"emit",C+"macros","frozen-collections-macros/src/lib.rs",C+"inline_maps",C+"inline_sets",C+"hash_tables",C+"hashers"],
[("emitter strategy choice and table generation",C+"emit/collection_emitter.rs"),("code generation",C+"emit/generator.rs"),("inline hash tables",C+"hash_tables/inline_hash_table.rs"),("inline range hashers",C+"hashers")],
["all map/set operations on generated fixtures"])
p("C18","Scalar numbering preserves order and identity",
"For every supported integer type and every derived enum, the mapping from a key to its position number preserves order and never maps two keys to one number.",
["inputs"],"all values of all scalar key types","Tests check a few values per type.",
[C+"traits/scalar.rs",C+"macros/derive_scalar_macro.rs"],[("per-type index functions",C+"traits/scalar.rs")],["index of pairs of keys"])
p("C19","The chosen strategy delivers the advertised lookup speed",
"The analysis picks, for each key set, an implementation at least as fast to query as the general one.",
["inputs","configurations"],"all key sets","Benchmarks sample a few sizes; nothing asserts speed.",
[C+"analyzers",C+"emit/collection_emitter.rs"],[("key analyzers",C+"analyzers")],["query latency"])
p("C20","Malformed macro input is rejected at compile time with a diagnostic",
"Every macro invocation or emitter configuration that is not well formed is rejected with an error instead of producing a collection.",
["programs"],"all macro inputs","Tests cover a list of malformed inputs.",
[C+"macros/processor.rs",C+"macros/parsing",C+"emit/collection_emitter.rs"],[("macro parsing",C+"macros/parsing")],["compiler diagnostics"])
p("C21","All feature combinations build and agree",
"With any combination of optional features, including without the standard library, the crates build and the remaining API behaves the same.",
["configurations"],"all feature combinations","Only the default features are built and tested here.",
["frozen-collections/Cargo.toml",C+"lib.rs"],[("cfg gates",C+"lib.rs")],["compilation under each feature set"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
