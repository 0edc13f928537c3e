#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Run by hand after editing."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

IDX="src/index/mod.rs"; IO="src/index/io.rs"; RW="src/index/rw/mod.rs"; RE="src/index/reorder.rs"
SV="src/slice_vector/mod.rs"; SET="src/slice_vector/set_vector.rs"; OFF="src/slice_vector/offsets.rs"
ANG="src/elements/angular.rs"; INT="src/elements/angular_int.rs"; DV="src/elements/dense_vector.rs"
EMB="src/elements/embeddings/mod.rs"; PAR="src/elements/embeddings/parsing.rs"; EMR="src/elements/embeddings/reorder.rs"

p("S01","Search results are genuine, distinct, ordered and bounded",
  "A search on any index returns ids of indexed elements, no id twice, each paired with exactly the distance between that element and the query, in non-decreasing order of distance. It returns at most as many results as neighbours asked for and as nodes the search may keep (max_search), and at least one when the index is not empty and both limits are at least one; an empty index gives an empty result. Asking for fewer neighbours returns a prefix of what asking for more returns.",
  ["inputs","configurations"],"All indexes (any link structure, any layering, duplicates, ties and zero vectors included), all queries, all max_search >= 1 and num_neighbors >= 0, for built, loaded and reordered indexes alike.",
  "The tests search a few random 5-50 dimensional data sets and mostly look at the first result; ties, disconnected nodes, dead nodes, max_search smaller than num_neighbors and odd link structures never occur there.",
  [IDX,"src/max_size_heap.rs"],[("best-first search with a bounded result heap","src/index/mod.rs search_for_neighbors"),("bounded heap","src/max_size_heap.rs push/into_sorted_vec")],
  ["Granne::search","GranneBuilder::get_index().search","RwGranneBuilder::search"])
p("S02","Search stops only at a local optimum and descends greedily through layers",
  "When a search returns a full result set (max_search results kept), no element linked from a returned element is strictly closer to the query than the farthest kept one without being returned itself; when it is not full, the results are closed under links. The search starts from element 0 and is never worse than the greedy descent through the upper layers, and with a budget at least as large as what is reachable in the last layer it returns exactly the reachable elements, best first.",
  ["inputs","configurations"],"All link structures of the layers (all digraphs up to the bound), all distance orders with and without ties, all max_search values, one or several layers.",
  "The tests only check that the recall on random data is good enough; a search that stops one expansion early, or starts from the wrong entry point, still passes on well connected random graphs.",
  [IDX,"src/max_size_heap.rs"],[("termination rule: result heap full and next candidate farther than the worst kept","search_for_neighbors"),("layer by layer greedy descent","find_entrypoint")],
  ["Granne::search"])
p("B01","Every build history yields a well-formed index",
  "After any sequence of pushes, partial builds and full builds, the index reports as many elements as were asked to be built, its layers are nested and non-decreasing in size, and in every layer each element's neighbours are distinct, different from the element itself, inside that layer, and at most the configured number. Zero vectors (elements at a distance from themselves) are left out of the links, except the first element, where searches start. Building never alters or reorders the stored elements, progress reporting changes nothing, and asking to build more elements than exist or fewer than already indexed is refused without damaging the index.",
  ["histories","configurations","inputs"],"All sequences of push / build_partial(k) / build up to the bound, for small configurations (num_neighbors, max_search, multiplier, reinsertion, expected size) and data with duplicates, zero vectors and ties.",
  "The tests check neighbour symmetry on a handful of builds in one go; mixed histories with duplicates, zero vectors and tiny neighbour lists are not enumerated.",
  [IDX],[("layer construction","build_partial / index_elements_in_last_layer"),("neighbour list maintenance","connect_nodes / add_and_limit_neighbors / initialize_node")],
  ["Index::len","Index::num_layers","Index::layer_len","Index::get_neighbors","Builder::build","Builder::build_partial"])
p("B02","Layer sizes follow the configured multiplier, however the build is split",
  "Building an index always terminates; the last layer holds every element, every layer above holds the next layer's size divided by the multiplier (rounded up), and the first layer holds at least one and at most about one multiplier of elements. When the expected number of elements is configured, building in any number of increments ends with exactly the same layer sizes as building once.",
  ["inputs","configurations","histories"],"All element counts up to the bound (and all exact powers of the multiplier with their neighbours), all multipliers from a grid >= 2, every way to split a build into increments.",
  "The tests try four sizes and three multipliers; the layer count comes from a floating point logarithm whose errors appear only at particular sizes such as exact powers.",
  [IDX,RW],[("layer size formula","compute_num_elements_in_layer"),("loop until everything is indexed","build_partial")],
  ["Index::num_layers","Index::layer_len"])
p("B03","Small indexes are exact",
  "When an index holds few elements compared with the configured neighbours per node (at most a quarter, with a search budget covering all of them), every pair of non-zero elements ends up linked in both directions and a search with a large enough budget returns the exact nearest neighbours of any query. This holds for every insertion order, increment and duplicate pattern within that size. Nor can copies crowd anything out: when, building on one thread, one element occurs any number of times among at most num_neighbors / 4 others (with a search budget of at least twice num_neighbors), every one of them is still found from any query.",
  ["inputs","histories","configurations"],"All small data sets over a finite vector alphabet (duplicates and zero vectors included), all increments, with and without reinsertion.",
  "Recall tests accept misses; a dropped link or lost element in a small index passes them.",
  [IDX],[("candidate search and mutual linking","index_element"),("neighbour selection keeps everything that fits","select_neighbors")],
  ["Granne::search","Index::get_neighbors"])
p("B04","Parallel building is safe under every thread interleaving",
  "Whatever way the worker threads of a parallel build interleave, the build terminates without panic or deadlock, the index is well formed, links are mutual as long as no list has filled up, and in a small index every non-zero element is found by a search with a large enough budget.",
  ["schedules"],"All interleavings of the lock operations of the worker threads, up to a preemption bound, for 2 to 4 concurrent insertions on small data sets, several configurations.",
  "The repository's tests run the builder with whatever schedule the machine happens to produce (and are only stable with a single worker); a lost update needs a specific preemption.",
  [IDX],[("per node reader-writer locks","index_elements / index_element / connect_nodes / initialize_node")],
  ["GranneBuilder::build with a parallel thread pool"])
p("I01","A saved index is indistinguishable from the original after loading",
  "An index written to a buffer or file at any position and loaded again from bytes, from a memory-mapped file, borrowed or copied to owned, has the same layers, the same neighbour sets and gives identical answers to every search. Saving what was loaded reproduces the same bytes, and the bytes load correctly wherever in memory they lie.",
  ["inputs","histories","configurations"],"All indexes in the bound: built ones from every history of the build alphabet and arbitrary link structures (layer sizes crossing storage block boundaries, list lengths 0 to 254, ids of every byte width), chains of save/load/convert operations.",
  "The existing round trip tests abort on the base tree (misaligned access) and use one random index; block boundaries (60 offsets per block), the encodings chosen per list and empty or single-layer indexes are not covered.",
  [IO,SET,OFF,"src/io.rs"],[("compressed neighbour lists","src/slice_vector/set_vector.rs set_encode/decode_into/write_as_multi_set_vector"),("offset blocks","src/slice_vector/offsets.rs"),("metadata header","src/index/io.rs write_index/load_layers")],
  ["Index::write_index","Granne::from_bytes","Granne::from_file","Granne::to_owned"])
p("I02","Saved element collections load back identically",
  "Element collections (float vectors, quantized vectors, sums of embeddings, and the embeddings themselves) written to a sink and loaded from bytes or a memory-mapped file contain the same elements in the same order, bit for bit. The reported number of bytes equals the bytes actually written, and an empty collection survives the round trip.",
  ["inputs"],"All collections in the bound: every element type, dimensions 0..8 and around 32/64, counts 0..5 and around block sizes, extreme scalar values, terms using every byte of their id, buffers at any alignment; sparse files of more than 4 GiB.",
  "The tests round-trip one or two random shapes; byte counts, empty collections, one-element collections and unaligned buffers are not looked at.",
  [SV,DV,EMB,"src/io.rs","src/odd_byte_int.rs"],[("width/offset header plus raw data","src/slice_vector/mod.rs write/load_mmap")],
  ["Writeable::write","GranneBuilder::write_elements","Granne::write_elements","Vectors::from_bytes/from_file","SumEmbeddings::from_bytes/from_files"])
p("I03","A save that reports success has stored every byte",
  "If any operation of the output sink fails, the save returns an error; if the save returns success, the sink holds exactly the bytes of a complete file. Short writes and interrupted calls by the sink do not alter the result, and faults never cause a panic except in the corpus tools, which report failures that way.",
  ["fault_sequences"],"Every position of a failing write, seek or flush in the sequence of sink operations of each save path (index, elements, embeddings, concurrent builder, corpus tools), every short-write pattern and interruption from a small menu; also a full device.",
  "No test injects I/O faults; errors raised when a buffered writer is dropped are invisible to any test that uses a healthy disk.",
  [IO,RW,PAR,SV],[("error propagation through buffered writers","src/index/io.rs write_index, src/index/rw/mod.rs write")],
  ["Index::write_index","write_elements","RwGranneBuilder::write","RwGranneBuilder::save_index_and_elements_to_disk","embeddings::parsing"])
p("I04","An interrupted or truncated index save is never taken for an index",
  "If saving an index to a fresh sink stops at any point before it completes, what is on the sink is refused when loaded (error or controlled panic) or, once everything but trailing padding has been stored, behaves exactly as the complete index. Loading a truncated index never returns wrong answers silently and never reads outside the buffer.",
  ["crash_points"],"Every prefix of the sequence of sink operations (including torn writes at every byte) of saving indexes with 0..4 layers, and every truncation length of complete files.",
  "No test interrupts a save; ordering of header and body only matters at crash points between them.",
  [IO,OFF,SET],[("metadata written last","src/index/io.rs write_index"),("magic string and size checks","read_layer_sizes / load_layers")],
  ["Index::write_index","Granne::from_bytes","Granne::from_file"])
p("I05","A build can be resumed from a saved index",
  "A builder created from a saved (possibly partial) index and the same elements reports the same layers and neighbour sets as the saved index, and continuing the build gives the layer sizes of an uninterrupted build and a well-formed index. When resumed with a smaller neighbour limit, each list is a subset of the stored one within the new limit, with a larger one all stored links survive loading.",
  ["histories","configurations"],"All split points of small builds, chains of save/resume, all smaller/equal/larger neighbour limits, from bytes and from file.",
  "The only existing test of this aborts on the base tree and uses one split of one random data set.",
  [IDX,IO],[("rebuilding of fixed width lists from the stored form","GranneBuilder::from_bytes")],
  ["GranneBuilder::from_bytes","GranneBuilder::from_file"])
p("R01","Reordering an index preserves its structure and its answers",
  "Reordering returns a permutation of all element positions that maps every layer onto itself; the new index has the same elements moved accordingly and the same links under that renaming. Every search on the reordered index returns the same elements (after translating ids) with the same distances when distances are distinct, and reordering twice, or an index of any number of layers including zero or one, works.",
  ["inputs","histories","configurations"],"All small indexes (every layering, arbitrary links, every element type, loaded or freshly built), sizes crossing the parallel chunk size of 10 000, both progress settings, repeated reordering.",
  "The tests compare five searches on one random index; an off-by-one in a chunk, a mixed-up direction of the permutation or a lost node at a boundary needs specific sizes.",
  [RE,SV,EMB],[("order computation","compute_order"),("relabelling of links","reorder_layers / get_reverse_mapping"),("in-place permutation of elements","Permutable::permute")],
  ["Granne::reorder","Permutable::permute"])
p("R02","Reordering by keys sorts each layer by key",
  "Reordering by keys gives a permutation under which, within the elements first appearing in each layer, keys are non-decreasing, apart from the very first element, which keeps its place because searches start from it; structure, elements and search answers are preserved as for reordering. The keys computed for sums of embeddings depend only on the element's terms, list them by decreasing norm of their embedding (up to eight), and elements with equal terms get equal keys.",
  ["inputs","configurations"],"All key vectors over a small alphabet for small indexes with 1..3 layers, all small embeddings collections.",
  "Tests check five searches on one random index and never look at the order.",
  [RE,EMR],[("per layer key sort","reorder_by_keys"),("term relevance keys","compute_keys_for_reordering")],
  ["Granne::reorder_by_keys","embeddings::compute_keys_for_reordering"])
p("W01","The concurrent builder behaves as a growing searchable list",
  "Used from one thread, the concurrent builder gives inserted elements consecutive ids in order, returns exactly the inserted element for each id, never exceeds its maximum, reports how many were accepted, and every inserted (non-zero, not over-duplicated) element of a small index is found by searching for it. Its layer sizes are those of an ordinary build with the same expected size. Saved to the very files it was started from, it stores the same as anywhere else, and what was opened from those files before stays as it was.",
  ["histories","configurations"],"All sequences of insert / insert_batch(k) / search / save-reload up to the bound, starting from builders with 0..k elements, all small maxima, batches straddling layer and capacity boundaries.",
  "Tests insert a few fixed batches; capacity overflow inside a batch, layer switches in the middle of a batch and searching while only the first layer exists are not enumerated; nor are saves onto mapped files.",
  [RW],[("id allocation and layer switch","insert_batch"),("search entry","RwGranneBuilder::search")],
  ["RwGranneBuilder::insert","insert_batch","search","len","get_element","write"])
p("W02","Concurrent inserts and searches are safe under every interleaving",
  "With threads concurrently inserting and searching, no interleaving panics or deadlocks, all returned ids are distinct and contiguous overall, the maximum is never exceeded, and each id returns the element inserted for it. Every search returns valid distinct results with true distances, an element whose insertion completed before a search started is found by it in a small index, and layers stay as in a sequential build.",
  ["schedules"],"All interleavings of the lock operations of 2-3 threads with 1-2 operations each (inserts, batches that cross a layer or the capacity, searches, reads), up to a preemption bound, several starting states; plain threads and tasks of a rayon pool of the caller.",
  "Concurrent tests run one arbitrary schedule per run and only check that nothing crashes.",
  [RW,"src/index/rw/rw_lock_slice_vector.rs"],[("elements/layers locks with downgrade","insert_batch"),("per node locks","RwLockSliceVector")],
  ["RwGranneBuilder::insert","insert_batch","search"])
p("W03","Saving while inserting stores a consistent snapshot",
  "A save running concurrently with inserts and searches never deadlocks, and what it stores is a well-formed index and element collection of equal length that contains every insertion completed before the save began and no half-inserted element (of a batch, a prefix may be stored): it equals the builder's state at one moment during the save. Inserts blocked by a save complete afterwards.",
  ["schedules"],"All interleavings of the lock operations and of the individual sink writes of 2-3 threads (one saving, others inserting single elements or batches or searching), up to a preemption bound.",
  "No test saves while inserting (the one that did is commented out); a torn snapshot or a deadlock needs a specific interleaving.",
  [RW],[("write_lock excludes inserts during a save","RwGranneBuilder::write / insert_batch")],
  ["RwGranneBuilder::write","RwGranneBuilder::save_index_and_elements_to_disk"])
p("E01","Angular distance is a sane cosine distance",
  "The distance between float vectors is one minus the cosine of their angle to within rounding, never negative or NaN, at most two (plus rounding), symmetric, zero (within rounding) between a vector and itself or a positive multiple of itself, and one to a zero vector, for vectors whose squared length is between 1e-30 and 1e36. Creating a vector normalizes it to unit length whatever its dimension and keeps its direction; a zero vector stays zero.",
  ["inputs"],"All vectors over a small alphabet of scalars for every dimension up to the bound, single-coordinate and sparse patterns at every position of dimensions around the internal block width (31..33, 63..65, 96, 100), extreme magnitudes.",
  "Tests draw random vectors of fixed dimension 100 (or 1..100 with random entries) with loose tolerance; a lane or remainder mistake for particular dimensions and coordinates can hide.",
  [ANG,"src/math.rs"],[("blocked dot product","src/math.rs dot_product_f32"),("normalization","src/math.rs normalize_f32")],
  ["angular::Vector","Dist::dist"])
p("E02","Quantized vectors keep direction and distance sane",
  "Quantizing maps the coordinate of largest magnitude to the extreme value with its sign, every other coordinate proportionally (within one step, never past it, sign kept), whatever the scale of the input, and a zero vector to zero without failing. The distance is one minus the cosine of the stored integers to within rounding, never negative or NaN, symmetric, zero to itself, one against a zero vector, at most two.",
  ["inputs"],"All float vectors over a small alphabet up to a bounded dimension, all pairs of small integer vectors, saturated vectors of large dimension, every coordinate position around the block width.",
  "Only indirectly tested through random builds; zero vectors even panic in debug builds.",
  [INT,"src/math.rs"],[("quantization","angular_int::Vector::quantize"),("integer dot product and norms","src/math.rs dot_product_and_squared_norms_i8")],
  ["angular_int::Vector","Dist::dist"])
p("E03","All ways to get a distance from a container agree",
  "For every element container, element access, distance by index, distance to an element and batch distances agree with each other and with the distance of the two elements, for every pair of indexes, also through references, slices and plain vectors of user-defined elements. Batch results come in the order asked, repeated indexes included.",
  ["inputs"],"All containers of the alphabet (float, quantized, sums of embeddings, user slices and Vecs, references) of up to 4 elements with zero and duplicate vectors, all index lists up to length 3.",
  "No test compares the specialised implementations with each other.",
  [DV,"src/elements/mod.rs",EMB],[("specialised dist/dists","src/elements/dense_vector.rs, src/elements/mod.rs")],
  ["ElementContainer::get/dist/dist_to_element/dists"])
p("E04","Vector collections behave like a list of vectors",
  "Under any sequence of operations (push, extend, permute, clone, borrow, copy to owned, save and load, modification after loading from bytes or a mapped file) a vector collection behaves as a plain list of equal-length vectors. Copies are independent: changing one never changes another or the bytes or file it was loaded from, and permuting puts at each position the element the permutation names.",
  ["histories","inputs"],"All operation sequences up to the bound over collections of small dimension, including empty ones, all permutations of up to 5 (and structured ones of larger sizes).",
  "Tests check each operation once; copy-on-write after load, empty operands and operation chains are not enumerated.",
  [DV,SV],[("copy-on-write storage","FixedWidthSliceVector"),("cycle-following permutation","FixedWidthSliceVector::permute")],
  ["angular::Vectors","angular_int::Vectors","Permutable::permute"])
p("E05","Sums of embeddings behave as sums over term lists",
  "A sums-of-embeddings collection behaves, under any sequence of adding embeddings and elements, permuting, borrowing, saving and loading, as a list of term lists whose terms come back exactly in order for every representable id, and each element's vector is the sum of its terms' embeddings (zero vector for no terms), normalized when used as an element. Permuting moves whole elements and keeps everything else.",
  ["histories","inputs"],"All operation sequences up to the bound with small embeddings, term lists of length 0..3, ids at every byte boundary up to 2^24-1, all permutations of up to 5 elements and structured ones across the 10 000 chunk size.",
  "Tests cover one random collection and one reversal permutation.",
  [EMB,SV,"src/odd_byte_int.rs"],[("compact ids and offsets","src/odd_byte_int.rs"),("summation","get_embedding_internal"),("chunked permutation","Permutable for SumEmbeddings")],
  ["SumEmbeddings"])
p("B05","Building on one thread is reproducible",
  "With one worker thread, the layers, neighbour lists and saved bytes of an index depend only on the element values, the options and the increments of the build. They do not depend on whether the elements are owned, borrowed, referenced, cloned, loaded from bytes or files, or pushed one by one before the build, nor on whether progress is shown. Options take their documented defaults (30 neighbours, max_search 200, multiplier 15, reinsertion on, progress off and nothing printed), can be set in any order, the last value set counts, and each option has its effect (reinsertion, a larger search budget and more neighbours change the links of crowded indexes, and searches over fixed families of data find more with them). What the concurrent builder stores does not depend on how insertions were grouped into batches.",
  ["inputs","configurations","histories"],"All small element sequences over a vector alphabet for all element types, all ways to hold them, all orders of setting options, all groupings of small insertion sequences; larger builds.",
  "Tests build random data once and look at recall; none compares two builds, other storage forms, or option orders.",
  [IDX,RW,"src/elements/dense_vector.rs","src/elements/embeddings/mod.rs"],[("options","impl BuildConfig"),("deterministic candidate search","search_for_neighbors"),("batches","insert_batch")],
  ["GranneBuilder::build","BuildConfig","RwGranneBuilder::insert_batch"])
p("C01","Neighbour storage is lossless for every list",
  "Every list of distinct neighbour ids an index can hold (any count up to 254, any ids up to the maximum) comes back as exactly the same set after being stored, for any number and pattern of lists, empty ones included. The stored form is independent of the order links were added in.",
  ["inputs"],"All subsets up to size 3 (5 in thorough) of ids at every encoding boundary (0, 1, 2^8+-1, 2^16+-1, 2^24+-1, 2^31, 2^32-2), all counts 0..254 for dense and sparse ids, all numbers of lists across storage block boundaries, patterns whose total size crosses 2^16 inside a block.",
  "Tests use random lists of one magnitude; the encoding switches per list on its size, with an escape for lists that do not compress.",
  [SET,OFF],[("delta + variable byte encoding with raw fallback","set_encode / decode_into"),("block offsets with 16 bit deltas","Offsets")],
  ["Granne::from_bytes / get_neighbors","GranneBuilder::from_bytes + write_index","Granne::reorder_by_keys"])
p("T01","Corpus parsing and sharding lose nothing",
  "Parsing a corpus (a file, a directory of parts, plain or, with names ending in .gz, gzip) yields one element per line, in order of file names and of lines, each holding the known words of the line (of what follows its last colon, if any) in order. Writing shards for any number of shards partitions exactly those elements contiguously and in order, every shard loads, and it equals the unsharded result when concatenated. Shard i of x.e is x-i.e (.bin if there is no extension), and elements-i.bin inside a directory. Output files replace existing ones without disturbing collections opened from those.",
  ["inputs","configurations"],"All small corpora over a tiny vocabulary (unknown words, empty lines, prefixes before a colon), split over 1-3 parts in every way, every number of shards from 1 to more than the number of elements.",
  "Only the shard file naming is tested.",
  [PAR,SV],[("parsing","parse_file / parse_elements_in_directory_or_file"),("sharding","parse_elements_and_save_shards_to_disk / write_range")],
  ["embeddings::parsing"])
p("T02","Precomputing embeddings writes every element's vector",
  "Writing the vectors of a sums-of-embeddings collection to disk produces a loadable collection with one quantized vector per element, in order, equal to quantizing that element's summed embedding, for any number of elements, also when the output replaces one of the input files.",
  ["inputs"],"Every number of elements across the chunking boundaries (1..450 and around multiples of 100), term lists of length 1..3, several dimensions.",
  "Not tested at all.",
  [PAR],[("chunked conversion","compute_embeddings_and_save_to_disk")],
  ["embeddings::parsing::compute_embeddings_and_save_to_disk"])
p("Y01","The Python module reflects the core library faithfully",
  "Through the Python module, sequences of building, pushing, saving, loading, searching, reading elements and neighbours, and reordering give for every element type what the core library gives: lengths, stored elements, neighbour lists, result ids and distances agree and saved files load with equal contents, also when they replace the files that the saved or another object was loaded from. Arguments of the wrong type, missing files, failing saves, and ids out of range of a non-empty index raise Python exceptions and leave the objects as they were; no argument crashes the interpreter. Progress is printed by default, and nothing is when it is switched off.",
  ["histories","configurations"],"All operation sequences up to the bound for each element type exposed, with small data sets.",
  "The Python layer has no tests.",
  ["py/src/lib.rs","py/src/variants/mod.rs","py/src/variants/index.rs","py/src/variants/builder.rs","py/src/embeddings.rs"],[("type-erased wrappers","py/src/variants")],
  ["granne.Granne","granne.GranneBuilder","granne.Embeddings"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
