"""Which explorers decide which property, and at what level."""

ASSUMPTIONS = [
    "bounded: histories, sizes and input shapes up to the bounds named in each exploration",
    "exploration executes the real code; the reference model only predicts results",
]

B, S = False, True  # without / with the serialization feature


def mc(runs, note, technique="bounded exhaustive exploration of operation histories on the real code", **kw):
    return dict(runs=runs, level="model_checking", note=note, technique=technique, **kw)


def fe(runs, note, rule):
    return dict(runs=runs, level="fault_enumeration", note=note, rule=rule,
                technique="exhaustive enumeration of fault points over operation histories on the real code")


PROPS = {
    "A01": mc([("arena", B), ("arena", S)], "All histories over the whole operation alphabet for small capacities, to the fixpoint of canonical states; "
              "every pointer value near the live ones is tried after every step."),
    "A02": mc([("limits", B), ("limits", S)], "All histories of every arena kind over the whole range of an 8 bit generation counter, and around the maximum of wider ones; "
              "at the maximum every operation is tried, invalidating ones have to panic without effect."),
    "A03": mc([("limits", B), ("limits", S)], "Index ranges of small index types exhausted from every reserved capacity by every way of inserting, then every further operation; "
              "all sequences of reserving, and of cloning back and forth, up to a length."),
    "A04": mc([("nzvec", B)], "All histories to the fixpoint for elements of fourteen sizes and alignments under the checking allocator; every length from every reserved capacity followed by every pair of operations."),
    "A05": mc([("ptr", B), ("ptr", S)], "Every pointer value of the small types and boundary values of the others, every pair of them, for every combination of index and generation type.",
              technique="exhaustive enumeration of pointer values, pairs and conversions on the real code"),
    "C01": mc([("chain", B)], "Every history of chain operations for small capacities against explicit linked lists, plus every operation on long chains."),
    "C02": mc([("chain", B)], "The generation-less chain arena through the same exploration and the same oracle as the chain arena."),
    "C03": mc([("chain", B)], "Traversals from every link and every invalid pointer in every state; advancers interleaved with every operation."),
    "C04": mc([("chain", B)], "Every arena of up to four links with every combination of interlinks, valid or not."),
    "O01": mc([("ord", B)], "All histories for small capacities, all reachable balanced trees up to a size, against a sorted list."),
    "O02": mc([("ord", B)], "Every search, starting pointer and step limit in every reachable state, against the sorted list."),
    "O03": mc([("ord", B), ("serial", S)], "Entries looked at are counted in every reachable tree up to a size, in insertion and removal families of large sizes, and in trees of every size that were read back."),
    "O04": mc([("ord", B)], "Comparison answers are enumerated instead of computed; manual insertion is tried at every wrong place."),
    "S01": mc([("surject", B)], "All histories for small capacities against an explicit partition, plus joining patterns of large sets."),
    "S02": mc([("surject", B)], "All histories of joining, removing, clearing, cloning and compressing with every key and value instance tracked."),
    "X01": mc([("cross", B)], "All iterators read out in every reachable state of every arena kind; drains and consuming iterators abandoned after every number of steps."),
    "X02": mc([("cross", B)], "Every interleaving of advancer steps with operations for small arenas of every kind, to the fixpoint where it is finite."),
    "X03": mc([("cross", B)], "Compression of every reachable small arena of every kind and recasting of every small pointer graph through the returned map."),
    "X04": mc([("cross", B)], "Two arenas of each kind explored together, cloned into each other in every way and changed independently afterwards."),
    "X05": mc([("cross", B)], "All pairs of arenas made by short histories compared with each other, and pairs that evolve together."),
    "X06": mc([("serial", S)], "Writing and reading back, in two formats, as an operation among all others in every history of every arena kind for small capacities; every size of larger arenas with holes and of trees."),
    "X07": mc([("serial", S)], "Every small document over a bounded alphabet of indexes, interlinks, value references and counts for every arena kind in two formats, all short byte strings, and impossible lengths, against a reference reading of the document.",
              technique="exhaustive enumeration of small documents read by the real code"),
    "X08": mc([("mem", B), ("fault", B)], "All operations together in every history of every arena kind for small capacities with tracked elements under the checking allocator; all sequences of operations up to a length for fifteen element shapes; drains leaked after every number of steps."),
    "X09": fe([("fault", B)], "Every callback of every operation panics at each of its invocations, from every state made by short histories; afterwards the arena is compared, used further, or dropped.",
              "a case is a history, an operation, a pointer and the number of the invocation that panics; it counts when that invocation happens"),
    "X10": mc([("generic", B)], "Two arenas of each kind go through every sequence of steps up to a length, one by the trait and the other by its own methods, and are compared after each."),
    "X11": mc([("cross", B)], "Every operation given stale pointers (removed, replaced, reused slots) in every reachable small state of chain, ordered and surject arenas."),
    "X12": mc([("cross", B)], "Every history up to a length of every arena kind is applied, and the printed forms of the arena and its links are compared with what its pointers lead to."),
    "R01": mc([("render", B)], "Every graph of up to four nodes with every list of sources and sinks, repeated edges and dangling pointers, for four pointer types, label texts and sizes, and families of larger graphs, is rendered both ways.",
              technique="exhaustive enumeration of small graphs rendered by the real code"),
    "R02": mc([("render", B)], "The picture of every graph of up to four nodes with every list of sources and sinks, repeated edges and dangling pointers, label texts and sizes, and families of larger graphs, is read back and compared with the graph, port by port.",
              technique="exhaustive enumeration of small graphs rendered by the real code, the picture read back and compared"),
}
