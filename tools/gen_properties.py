#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays easy to edit)."""
import json, os
A='triple_arena/src/arena/base_arena.rs'; AI='triple_arena/src/arena/arena_iterators.rs'; NV='triple_arena/src/arena/nonzero_inx_vec.rs'
C='triple_arena/src/chain/chain_arena.rs'; CI='triple_arena/src/chain/chain_iterators.rs'
N='triple_arena/src/chain/chain_no_gen_arena.rs'; NI='triple_arena/src/chain/chain_no_gen_iterators.rs'
O='triple_arena/src/ord/ord_arena.rs'; OF='triple_arena/src/ord/find.rs'; OI='triple_arena/src/ord/insert.rs'; OR='triple_arena/src/ord/remove.rs'; OT='triple_arena/src/ord/ord_iterators.rs'
S='triple_arena/src/surject/surject_arena.rs'; SI='triple_arena/src/surject/surject_iterators.rs'
P='triple_arena/src/traits/ptr.rs'; PS='triple_arena/src/traits/ptr_serde.rs'; SE='triple_arena/src/traits/serde.rs'; AT='triple_arena/src/traits/arena_trait.rs'; AD='triple_arena/src/traits/advancer.rs'
RG='triple_arena_render/src/grid_process.rs'; RR='triple_arena_render/src/render_grid.rs'; RN='triple_arena_render/src/render_node.rs'; RS='triple_arena_render/src/svg.rs'
L=[]
def p(id,title,st,over,q,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    L.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p('A01','A pointer reaches exactly its own element and never works after invalidation',
 "In the plain arena, as long as an element has not been removed or invalidated, its pointer (and no other pointer value) reaches exactly that element, and every lookup, mutation, swap, replacement or removal through it acts on that element alone and reports what it did. Once an element has been removed, replaced with a new generation, explicitly invalidated, cleared, drained or compressed away, no operation ever accepts its old pointer again and no later insertion ever issues a pointer equal to it, while a rejected pointer leaves the arena unchanged and hands the argument back. Pointer types without a generation counter follow the same rules, except that a reused index makes an old pointer valid for the new element.",
 ['histories','inputs','configurations'],"every finite sequence of operations on one arena, every pointer value (issued, stale, fabricated, the invalid sentinel), with and without generation counters and for every pointer width",
 "The existing fuzz test samples one seeded history of mostly valid pointers; it never hands stale or fabricated pointers of reused slots to all operations in all reachable free-list states.",
 [A,AI],[('free list and per-entry generation',A),('generation increment on every invalidation',A)],['Arena get/get_mut/get2_mut/contains/remove/remove_by/invalidate/replace_*/swap/insert*/try_insert*/clear*'])
p('A02','Generations count invalidations exactly; running out panics, never wraps',
 "The generation reported by an arena of any kind starts at 2 and grows by exactly one for every invalidating operation (for whole-arena or whole-chain operations one for the operation, for draining at least one) and by nothing for operations that invalidate nothing, including ones given an invalid pointer. When a small generation counter is at its maximum, a further invalidation panics rather than wrapping to a value at which an old pointer could become valid again, and non-invalidating use of the arena continues to work at the maximum.",
 ['histories','configurations'],"every operation from every reachable small state, every generation counter width, and every operation at, just before and after the maximum counter value, for all five arena kinds",
 "Tests check a final generation number of one seeded run and the overflow panic of a few operations on the plain arena only.",
 [A,C,N,O,S,P,PS,AI],[('increment with overflow panic',P),('increment with overflow panic (serde build)',PS),('one increment per bulk invalidation',A)],['generation() of every arena kind','panic or not at the maximum'])
p('A03','Capacity grows only on demand, is kept or released as promised, up to the limit',
 "Capacity is never below the length; reserving makes room for at least that many more insertions without further growth, insertion without reallocation succeeds exactly while there is spare capacity and otherwise returns its argument, clearing and draining keep capacity, the shrinking operations release it, and no other operation changes it except insertion into a full arena. Every index type can be filled up to its maximum index with every kind of insertion, only then does insertion or over-reserving panic, and such a panic leaves the arena as it was. Repeatedly cloning arenas into one another never makes their capacities grow beyond the larger of the two.",
 ['histories','inputs','configurations'],"every operation sequence over small arenas, every reserve amount around the limits, every index width including the 8-bit one filled completely, every kind of insertion at every fill level, and every sequence of mutual cloning",
 "One test fills a 255-entry plain arena with plain insertion; other insertion functions, other arena kinds, reservation near the limit and clone loops are sampled at single points or not at all.",
 [A,NV,C,N,O,S],[('reserve and doubling with clamping',A),('virtual capacity separate from allocation',A),('clone capacity reuse without growth',A)],['capacity()','try_insert result','panics at the index limit'])
p('A04','The one-based backing vector behaves as a growable array',
 "The internal one-based vector behaves, for every sequence of pushes, pops, reads, paired mutable reads, reservations, clears, shrinks and clones, exactly like an ordinary growable array addressed from one: reads outside the length yield nothing, contents and order survive every reallocation, and each element is dropped exactly once.",
 ['histories','inputs'],"every operation sequence up to the depth bound from every length, for element sizes and alignments from one byte to larger than a cache line, including clones of every length",
 "The vector has its own fuzz test with one element type and one seed; capacity transitions and alignments are sampled.",
 [NV],[('manual allocation and reallocation',NV)],['all public methods of the vector (exposed by the crate\'s own internal-utils feature)'])
p('A05','Pointer types are faithful index-generation pairs with a reserved invalid one',
 "For every supported combination of index width and generation width (or none), a pointer carries exactly its index and generation, compares, orders and hashes consistently with the pair (index, generation), prints its name, index and generation, has a default and a documented invalid value that no arena ever considers valid, and optional pointers take no more space than pointers. Conversions between counters and machine integers are exact over the whole range of the type, recasting a pointer replaces it by its image or reports it when it has none, and a serialized pointer is its index alone, read back with the initial generation (zero being refused).",
 ['inputs','configurations'],"every value of the 8-bit types, boundary values of the wider ones, every pair of pointers from those sets, both with and without the serialization feature",
 "Tests instantiate a handful of pointer values in one feature configuration.",
 [P,PS,'triple_arena/src/traits/ptr.rs'],[('pointer trait and macro',P),('pointer trait and macro with serialization',PS)],['Ptr::inx/generation/invalid/_from_raw, PartialEq, Ord, Hash, Debug, Display, Recast'])
p('C01','Chain arenas behave as an exact set of doubly linked lists',
 "A chain arena is at all times a set of linear and cyclic chains in which neighbours agree with each other, and inserting (at a start, an end, between neighbours, beside one neighbour, as a new linear or cyclic chain), removing, connecting, breaking, exchanging, swapping, replacing and invalidating change exactly the interlinks that their documentation names and nothing else. Requests with an invalid pointer, non-neighbouring pointers, or a start or end that is not one are refused without any effect, the argument being returned.",
 ['histories','inputs'],"every operation with every choice of argument pointers (live, stale, equal, from the same or different chains) from every arrangement of chains over a small number of links",
 "The fuzz test draws arrangements and arguments at random, almost always valid ones; single-link cycles, self-exchanges, stale neighbours and mixed chains are combinations it rarely or never produces.",
 [C,CI],[('interlink rerouting',C),('neighbour test before insertion',C)],['get_link of every link, are_neighbors, results of each operation'])
p('C02','The generation-less chain arena matches the chain arena step for step',
 "The chain arena whose interlinks carry only indexes obeys the same linked-list rules as the ordinary chain arena: given the same operations on corresponding links it yields the same chains, the same results and the same refusals, and pointer validity is still judged with generations wherever a full pointer is taken.",
 ['histories','inputs'],"every operation with every argument choice from every arrangement of chains over a small number of links, in lock step with a list model and with the ordinary chain arena",
 "Its fuzz test is a copy of the chain test with the same sampling limits.",
 [N,NI],[('index-only interlinks',N)],['get_link, get_link_no_gen, are_neighbors, are_neighbors_inx, results of each operation'])
p('C03','Chain traversal visits a whole chain once in order; chain removal takes it all',
 "Advancing or iterating along a chain from any of its links visits every link of that chain exactly once and nothing else: forward to the end from the start link and then, if it began in the middle of a linear chain, backwards from the start link's predecessor; a cyclic chain is gone round once. Removing a whole chain from any link removes exactly that chain's links, reports their number and leaves all other chains intact. Traversal from an invalid pointer visits nothing, and traversal terminates whatever changes are made to the chains during it.",
 ['histories','inputs'],"every start link of every arrangement of linear and cyclic chains, stale start pointers, and every single interfering operation at every step of a traversal",
 "Tests traverse a few example chains.",
 [CI,NI,C,N],[('chain advancer with direction switch and step limit',CI),('remove_chain',C)],['advancer_chain, iter_chain, remove_chain'])
p('C04','Only consistent links can be turned into a chain arena',
 "Building a chain arena from an arena of links succeeds exactly when every interlink points at a live link that points back, and then keeps every pointer, link and element; otherwise it fails with an error.",
 ['inputs'],"every assignment of previous and next pointers (absent, each entry, stale or dangling) to the links of arenas with up to a few entries",
 "Tests never try inconsistent link sets.",
 [C,N],[('from_arena interlink check',C),('from_arena interlink check',N)],['from_arena result'])
p('O01','Ordered arenas behave as a sorted list of key-value entries',
 "After any sequence of operations an ordered arena holds exactly the entries inserted and not yet removed, in key order, with equal keys only where multiple insertion was requested and new equal entries placed next to existing equals; plain insertion of an equal key replaces only the value and hands back the given key and the old value. First, last, neighbours, iteration and the pointers previously returned all agree with that list, and rebalancing never moves, drops or invalidates any other entry.",
 ['histories','inputs'],"every insertion position and every removal position (and replacement, swap, invalidation, clear, compression) from every reachable tree shape up to a bounded number of entries",
 "The fuzz test follows one random path through tree shapes; specific rotation and demotion cascades in deletion need particular shapes.",
 [O,OI,OR,OF,OT],[('rank balanced tree insertion',OI),('removal and rebalancing',OR),('threaded chain',O)],['iter, first, last, get_link, insert*, remove'])
p('O02','Searching an ordered arena finds the right entry or the right place',
 "Searching for a key finds an entry with that key exactly when there is one, similar-key search returns an adjacent entry together with the correct ordering, searches with a user function follow that function, and the linear variants return the same kind of answer for every starting pointer (valid or not) and every step limit. Insertions built on these searches, including the linear and the multiple-key ones, put the entry in its correct place from every starting pointer and step limit.",
 ['histories','inputs'],"every key present or falling in every gap, every start pointer including stale ones, every step limit up to beyond the length, on every reachable tree shape up to a bounded size, with and without equal keys",
 "Tests use linear searches with random parameters on random trees.",
 [OF,OI],[('binary search on the tree',OF),('linear search with fallback',OF)],['find_key, find_similar_key, find_*_linear, find_with, find_similar_with, insert_linear, insert_nonhereditary_linear'])
p('O03','Ordered arenas stay balanced: every search makes logarithmically many steps',
 "For every history of insertions and removals the number of entries looked at by any search is at most twice the base-two logarithm of the number of entries (about 1.44 times it if nothing was ever removed), up to an additive constant, and after compression or deserialization the tree is near-ideally balanced. This holds for any insertion and removal order, including manual insertion. A linear search whose target lies within its limit of the start looks only at the entries between them, and any other at no more than the limit in addition to a normal search.",
 ['histories','inputs'],"every history reaching every tree shape up to a bounded size, plus every compressed size up to a large bound and long adversarial insertion and removal orders",
 "Tests count comparisons for two fixed workloads.",
 [OI,OR,O],[('rank rules after insertion',OI),('rank rules after removal',OR),('ideal rebalance on compression',O)],['number of callback invocations in find_with'])
p('O04','Inconsistent key orderings or misused manual insertion never break the structure',
 "If keys compare inconsistently or manual insertion is used at the wrong place, the ordered arena still never panics, loops forever, leaks or loses entries: every inserted entry remains reachable by its pointer and by iteration exactly once, every removal removes exactly its entry, and balance is kept; only the sortedness and findability of keys may suffer.",
 ['histories','inputs'],"every sequence of insertions, manual insertions, lookups and removals up to a depth, with every possible sequence of answers from the key comparison",
 "Tests only use well-behaved keys.",
 [O,OI,OF,OR],[('structure maintained independently of the ordering',OI)],['iter, get, len, remove, drop counting'])
p('S01','Surject arenas maintain an exact partition of keys with one value per set',
 "A surject arena is at all times a partition of its keys into nonempty sets, each with exactly one value: a fresh insertion makes a new singleton set, inserting a key joins the set of the given key, union merges exactly the two sets, and removing, invalidating, swapping keys or swapping values changes exactly what is documented. Same-set queries, set sizes, key and value lookups, whole-set iteration and the counts of keys and values always agree with that partition, and invalid pointers are refused without effect.",
 ['histories','inputs'],"every operation with every choice of key pointers (live, stale, same set, different sets) from every partition of a small number of keys and every arrangement of free slots",
 "The fuzz test draws unions and removals at random with valid pointers.",
 [S,SI],[('cyclic chain of keys per set',S),('value entry with key count',S)],['in_same_set, len_key_set, iter, iter_surject, get*, union, remove, remove_key'])
p('S02','Surject values live as long as their set and are handed out or dropped once',
 "A value stays reachable from every key of its set until its last key is removed, at which point it is returned with that key; removing a whole set returns the value and drops every key of the set; union keeps the value of the larger set (of the first argument when equal) and returns the other together with a pointer into the kept set, without invalidating any pointer. No value or key is ever lost, duplicated or attached to a foreign set, including across clearing, cloning and compression.",
 ['histories','inputs'],"every sequence of insertions, unions, removals, swaps, clones and compressions over small partitions, with per-instance drop accounting",
 "Value ownership is only observed through equality of sampled values in one seeded run.",
 [S],[('key count',S),('smaller-into-larger union',S),('value slot compaction',S)],['return values of union/remove/remove_key, drop accounting'])
p('X01','Iteration covers every element exactly once; draining hands them all out',
 "For every arena kind, each of the iterators over pointers, keys, values, links and pairs (shared, mutable and by value) yields every live element exactly once with its own pointer and nothing else, in key order for ordered arenas. Draining hands out every element with its pointer and leaves an empty arena, retaining capacity, that works normally and accepts none of the old pointers, also when the drain is abandoned after any number of steps; consuming iteration hands out every element even if abandoned, dropping the rest.",
 ['histories','inputs'],"every reachable small state of every arena kind, every iterator, every point at which a drain or consuming iteration is abandoned, and every operation afterwards",
 "Tests iterate a few arenas to the end and drain fully.",
 [AI,CI,NI,OT,SI],[('advancer based iterators',AI),('drain drop handler',AI)],['all iterator methods of all arena kinds'])
p('X02','Advancers survive mutation: nothing kept is missed and nothing is repeated',
 "While an advancer of any arena kind walks its arena, arbitrary operations allowed by its documentation may be made between steps: it only returns pointers that are valid when returned, never returns the same pointer twice, returns every pointer that was valid when it began and stayed valid throughout, and terminates once no more elements are added. The ordered advancer additionally goes in key order from the requested start, and starting from an invalid pointer yields nothing.",
 ['histories','schedules'],"every interleaving of advancing with every allowed mutating operation (insertion, removal of the current, an earlier or a later element, invalidation, clearing, shrinking) on every small arena, including completely filled small index types",
 "Tests interleave advancing with one fixed kind of mutation.",
 [AI,CI,NI,OT,SI,AD],[('index cursor that does not borrow the arena',AI),('chain cursor',OT)],['advance() of every advancer'])
p('X03','Compression keeps every element and relation and maps every old pointer',
 "Compressing any arena keeps every element, its interlinks, order or set membership, makes capacity equal to the length, invalidates every old pointer, and reports for each element exactly once its old pointer and its new, valid one; afterwards links of a chain or keys of a set are adjacent in iteration order. The recaster it returns maps exactly the old pointers to the new ones, and recasting pointers stored in arenas through it preserves what they point to, while a pointer that has no image is reported as the error.",
 ['histories','inputs'],"every reachable small state of every arena kind (all free-slot patterns, chain arrangements, tree shapes and partitions), followed by further operations, and all small generation types near exhaustion",
 "Tests compress a few random states and check them in passing.",
 [A,C,N,O,S,AI],[('compress_and_shrink family',A),('chain-wise compression',C),('value compaction',S),('recaster arena',AI)],['compress_and_shrink, compress_and_shrink_with, compress_and_shrink_recaster, recast'])
p('X04','Clones have equal contents and valid pointers and are independent afterwards',
 "Cloning an arena of any kind, whether fresh, over an existing arena, with a mapping function, or into another arena kind, yields an arena in which exactly the source's pointers are valid and lead to the corresponding (mapped) elements with the same interlinks, order or set membership and the same generation, whatever the target held before, whose old elements are dropped. Both arenas then continue independently and correctly, including reuse of the target's spare capacity, and the source is untouched.",
 ['histories','inputs'],"every pair of small source and target states (all free-slot patterns and capacities) for every cloning function and arena kind, followed by every further operation on either",
 "Tests clone between a few pairs of arenas and compare with equality that does not look at the free list.",
 [A,C,N,O,S],[('clone and clone_from with free list splice',A),('clone_from_with',A),('clone_to_*',C)],['clone, clone_from, clone_from_with, clone_to_*, clone_keys_to_*'])
p('X05','Equality and ordering of arenas compare exactly their contents',
 "Two plain, chain or surject arenas are equal exactly when they have the same pointers with the same elements and relations, regardless of capacity, free slots, or generation counter; ordered arenas compare equal, less or greater exactly as the sorted lists of their entries, regardless of pointers and tree shape. Equality is reflexive and symmetric, never panics, and links and pointers compare by all their parts.",
 ['inputs','histories'],"every pair of small states of every arena kind, including pairs differing in exactly one pointer, link, key, value, set membership or length",
 "Tests compare clones with their originals, where almost any implementation returns equal.",
 [A,C,N,O,S],[('PartialEq/Ord implementations',O),('PartialEq of surject arenas',S)],['==, partial_cmp, cmp'])
p('X06','Serialized arenas come back with the same contents and a usable structure',
 "Serializing any arena (an ordered one after compression) and deserializing the result gives an arena with the same elements at the same indexes, with the same interlinks, order or partition, every generation reset to its initial value, that behaves correctly under every further operation including reuse of free slots; serializing it again gives the same result. An ordered arena that is not compressed is refused with an error rather than written out wrongly.",
 ['histories','inputs'],"every reachable small state of every arena kind, two serialization formats, followed by every further operation",
 "Tests round-trip one instance per arena kind and compare for equality only.",
 [SE,PS],[('map of index to element',SE),('free list rebuild on deserialization',SE),('tree rebuild on deserialization',SE)],['Serialize and Deserialize implementations of all arenas'])
p('X07','Malformed serialized data is refused with an error, never a broken arena',
 "Deserializing any syntactically well-formed input either yields an arena that satisfies all the structural rules of its kind or returns an error; duplicate or zero indexes, dangling or one-sided interlinks, keys naming missing values, wrong set sizes, sets joined in one chain, more entries than the index type has room for and similar inconsistencies are refused. It never panics and never loops. (That the keys of an ordered arena come in order is documented as not checked.)",
 ['inputs'],"every small document over a bounded alphabet of indexes, interlinks, value references and counts, for every arena kind",
 "Tests never deserialize malformed data.",
 [SE,C,N,S],[('duplicate index check',SE),('interlink check',C),('surject check',S)],['from_str / from_bytes results'])
p('X08','Every element is dropped exactly once and memory is never misused',
 "Across any sequence of operations on any arena kind, every element put in is either handed back or dropped exactly once, nothing is dropped twice, read after being dropped, or leaked when the arena is dropped, mutable references handed out together never alias, all allocations are within bounds and released with the layout they were made with, and an arena can be sent to or shared with other threads exactly when its elements can.",
 ['histories','configurations'],"every operation sequence up to a depth over every arena kind, element types of different size and alignment, under an allocator that poisons, bounds-checks and counts every allocation",
 "Tests use element types without destructors and no allocation checking.",
 [NV,A,AI,C,N,O,S,OT],[('manual allocation',NV),('entry replacement',A),('unsafe mutable iterators',AI)],['instance registry, allocator bookkeeping'])
p('X09','A panicking callback cannot corrupt an arena or its elements',
 "If a user-supplied creation function, mapping function, predicate, key comparison, clone or destructor panics at any of its invocations during any operation, no element is ever dropped twice or read after being dropped and the arena can still be cleared, reused or dropped. When a creation function or a key comparison panics, the arena is exactly as it was before the call and remains fully usable; a panicking predicate leaves every pointer to an element it already removed invalid for good.",
 ['fault_sequences','histories'],"a panic at every single invocation of every callback of every operation that takes one or compares, clones or drops elements, from every small state, followed by further operations",
 "No test has a panicking callback.",
 [A,C,N,O,S,NV],[('creation before commitment',A),('key count updates',S)],['state after catch_unwind'])
p('X10','The generic arena trait acts the same as the concrete arenas',
 "Code written against the generic arena trait gets, for each of the arena kinds that implement it, the same results and effects as the corresponding methods of the concrete type for construction, capacity, generation, length, emptiness, insertion, removal, lookup, mutable lookup, containment, advancing, clearing and shrinking.",
 ['histories','configurations'],"every sequence of trait calls up to a depth for each of the five implementing types, against a list model",
 "Tests exercise the trait with one short script.",
 [AT],[('trait implementations',AT)],['ArenaTrait methods'])
p('X11','Stale pointers are inert in chain, ordered and surject arenas too',
 "In chain, ordered and surject arenas every operation that takes a pointer rejects one whose element was removed or invalidated, even when its slot has been reused: queries answer no or nothing, modifying operations report failure, return their argument and change nothing, traversals from it visit nothing, and searches treat it as absent. Pointers of all other elements stay valid and keep leading to the same element through every operation except those documented to invalidate them.",
 ['histories','inputs'],"every operation of every arena kind with a stale pointer in every argument position, combined with every live pointer in the others, from every small state with reused slots",
 "Tests hand stale pointers to a couple of functions, never with the slot reused and never in combination with live pointers.",
 [C,N,O,S,CI,NI,OT,SI],[('generation check in every pointer-taking function',C)],['results and effects of all operations given stale pointers'])
p('X12','Printed arenas and links show exactly their contents',
 "The Debug form of an arena, compact and pretty, lists every element exactly once in iteration order and nothing else: plain, chain and ordered arenas as a map from each pointer to its element, its link or its key and value (ordered arenas in key order), surject arenas as a set of pointer, key and value. Links print their previous and next interlinks in this order and then the element, in the form (Debug or Display, compact or pretty) that is asked for.",
 ['histories'],"every short history of every arena kind, with elements whose four printed forms all differ",
 "No test prints an arena or a link.",
 [A,C,N,O,S],[('Debug and Display implementations',C)],['text of {:?}, {:#?}, {} and {:#}'])
p('R01','Rendering never fails on a valid graph and reports dangling pointers',
 "Rendering an arena of nodes as a picture terminates successfully for every graph whose pointers are all valid, whatever its shape: empty, disconnected, with cycles, self-loops, repeated edges, edges given at one end or at both, nodes of any size, and whatever index and generation types its pointers have (as long as there are indexes for the nodes and for the reference nodes that stand in for cut and dangling edges). If an edge points to a node that does not exist, the result is the corresponding error naming such a pointer when errors are requested, and otherwise a picture that shows that pointer as invalid; it never panics or runs forever. Rendering to a file that cannot be written is reported as an error.",
 ['inputs'],"every directed multigraph with sources and sinks over a few nodes, including dangling pointers, for pointer types with and without generations and with small counters, and every combination of label shapes",
 "No test renders anything; two programs draw fixed graphs for looking at.",
 [RG,RR,RN,RS],[('conversion to a directed acyclic graph',RG),('grid placement',RG),('layout',RR)],['render_to_svg result'])
p('R02','The rendered picture shows every node and edge once, apart and well-formed',
 "A rendered picture is well-formed text with the markup characters of labels (ampersand, angle brackets, quotes) escaped (labels being made of characters such text can hold), contains every node of the arena with all its label lines exactly once, in order and inside of the node's box, without any two labels or nodes overlapping or leaving the canvas, and draws every edge of the graph once, as a line between the two ports concerned or, where it is part of a cycle that had to be cut, as lines to and from references naming the target; a source and a sink that name each other are the two ends of one edge. There are no other lines, the lines between nodes form no cycle, dangling pointers get a box naming them, and the file variant writes exactly the same text in place of what the file held before.",
 ['inputs'],"every directed multigraph with sources and sinks over a few nodes with distinct labels, labels over an alphabet with all special characters",
 "No test looks at a picture.",
 [RG,RR,RN,RS],[('reference nodes for cut cycles',RG),('grid columns and rows',RG),('drawing',RS)],['svg text, node rectangles and ports'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in L: f.write(json.dumps(x)+'\n')
print(len(L))
