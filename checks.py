"""Which harnesses decide which property, with their bounds."""

MODEL_TRUST = [
    "Kani 0.68 / CBMC 6.11 / cadical translate and decide the compiled MIR correctly",
    "goggles' own code is the real source; its dependencies and std's containers are replaced by the models in /verif/models (Vec, HashMap, HashSet, atomics, hibitset, rayon, anymap, rustc-hash), which keep the documented contract; atomic_refcell and thiserror are the real crates",
    "panics end an execution (no unwinding is modelled); allocation never fails",
]


def H(name, what, bounds, **kw):
    d = dict(name=name, what=what, bounds=bounds)
    d.update(kw)
    return d


U = "indices: all of 0..4 and up to 3 arbitrary indices below 2^24 (their order and distances symbolic); "
E = "one allocator, a fixed sequence of operation kinds, every deletion aimed at an arbitrary handle ever returned (alive, pending or stale)"
I3 = "three distinct arbitrary indices below 2^24, present or absent in every combination, arbitrary u8 values"
OV = ("overlay",)
SCRIPT = "operations: a create, A create deferred, k delete, K delete deferred, m merge, ? all questions: "


def scripts(p, what, names, **kw):
    """names: {suffix: script}"""
    return [H("%s_%s" % (p, n), what + " (" + SCRIPT + s + ")", E, **kw) for n, s in names.items()]


HEAP = ("heapvec",)
G5 = "three entities, an arbitrary one deleted (below: the first); its generation: "
G18 = "one resource absent, free, shared once or twice, borrowed mutably, or released again, a second resource free or borrowed mutably"
WOPS = "c/C create, k/K delete, m merge, x insert, y insert the other type, r remove, w/d get_or_insert, g/G get_mut/get_guard, X/R register and unregister, j join, ? questions; capitals deferred"


def worlds(p, what, s):
    return [H("%s_w_%s" % (p, n), what + " (" + SCRIPT + k + ")", E.replace("allocator", "world without components")) for n, k in abc(s).items()]


def abc(s):
    return dict(zip("abcdefghijklmnopqrstuvwxyz", s.split()))


CHECKS = {
    "C01": dict(
        harnesses=scripts("c01", "handles returned are pairwise different, never generation zero, indices reused only after deletion and with a larger generation", abc(
            "aaakka aaakkAA aAkAkma aAKAKma aaKkmAma aaKKmaa aakAka aakAmka AAKmAma aKmAKma akAkAka AAkkAa")) + worlds("c01", "the same on a world", "aaKkmAma aAkAKma"),
        features=HEAP,
        outside="histories longer than 8 operations, more than 6 creations; generation exhaustion is C05",
    ),
    "C02": dict(
        harnesses=scripts("c02", "is_alive, entity, the live set, joining, and the acceptance of deletions agree with the history", abc(
            "aaakka aAkAk?m aAKk?ma akAk?A aaKm?A aAkm?kA aKk?mA akA?m?k AAk?Km aakAK?m aAKKm?A aaKkKm?")) + [
            H("c02_range", "entity(index) for every u32 index", "two entities; every index below 4, three arbitrary ones below 2^24, everything from 2^24 up")] + worlds("c02", "the same through a world", "aAKkmA aAk?Kma"),
        features=HEAP,
        outside="histories longer than 8 operations, more than 6 creations",
    ),
    "C03": dict(
        harnesses=scripts("c03", "a merge reports exactly the pending deletions, once each, whatever the list held before; everything else stays", abc(
            "aaaKKmm aAKAkm aAKkAmKm aaKkmm AKmAKm akAKmm aAKKkm AAkKmm aKkAKm AAAKKm")) + worlds("c03", "merging a world deletes exactly the pending ones", "aAKKkm aKmAKmm"),
        features=HEAP,
        outside="histories longer than 8 operations, more than 6 creations",
    ),
    "C04": dict(
        harnesses=[
            H("c04_" + n, "two threads running %s | %s concurrently after %s" % (x, y, p), "two threads, up to 2 shared-reference operations each, every interleaving of their atomic accesses with at most %d scheduling rounds (sequentially consistent)" % r, mode="proponly", replay=OV)
            for n, p, x, y, r in [("a", "ak", "A", "A", 2), ("b", "aak", "A", "AA", 3), ("c", "aak", "AK", "AK", 3), ("d", "aA", "AK", "KA", 3), ("h", "a", "A", "AA", 3), ("i", "aakk", "A", "AA", 3), ("j", "aK", "AA", "K", 3)]
        ] + [
            H("c04_" + n, "a thread running %s interrupted at any of its atomic accesses by a whole thread running %s, after %s" % (x, y, p), "two threads, up to 2 shared-reference operations each, the second one running as a whole between any two atomic accesses of the first", replay=OV)
            for n, p, x, y in [("e", "ak", "A", "AA"), ("f", "aakk", "AK", "A"), ("g", "aAK", "KA", "KA")]
        ],
        outside="more than two threads, more operations per thread, weak memory orderings (atomics are sequentially consistent)",
        assumptions=["the atomics are sequentially consistent; hibitset's atomic bit set operations are single atomic steps"],
    ),
    "C05": dict(
        cfgs=("goggles_verif",), stubs=True,
        harnesses=[
            H("c05_" + s, "two %s creations on a reused index, %s" % (m, w), G5 + b, **kw)
            for s, m, w, b, kw in [
                ("now", "creations, the second deferred,", "one of which is past the last generation", "the last generation or the one before", dict(mode="proponly", reach="ASKED", overflow=True)),
                ("deferred", "creations, the first deferred,", "one of which is past the last generation", "the last generation or the one before", dict(mode="proponly", reach="ASKED", overflow=True)),
                ("below_now", "creations, the second deferred,", "neither of which is past the last generation", "any generation below", {}),
                ("below_deferred", "creations, the first deferred,", "neither of which is past the last generation", "any generation below", {})]
        ] + [
            H("c05_after_" + s, "after the panic of %s creation on an exhausted index every entity is as before" % w, G5 + "the last generation", mode="proponly", reach="ASKED", peek=True, overflow=True)
            for s, w in [("now", "an immediate"), ("deferred", "a deferred")]
        ],
        outside="more than three entities; exhausting the index space itself",
        assumptions=["the generation is set through the hook verif_set_generation instead of reaching it in 2^31 steps", "unwinding itself is not modelled: the state is inspected where Option::expect panics"],
    ),
    "C06": dict(
        harnesses=[
            H("c06_" + s, "any legal operation sequence on %s agrees with a list of index/value pairs" % n,
              U + "3 arbitrary distinct indices live in the history, %d operations" % k)
            for s, n, k in [("vec", "VecStorage<u32>", 5), ("dense", "DenseVecStorage<u32>", 4), ("hash", "HashMapStorage<u32>", 4), ("flagged", "Flagged<VecStorage<u32>>", 4)]
        ] + [
            H("c06_t_" + s, "any legal operation sequence on %s agrees with a list of index/value pairs" % n,
              U + "3 arbitrary distinct indices live in the history, 7 operations", thorough=True)
            for s, n in [("vec", "VecStorage<u32>"), ("dense", "DenseVecStorage<u32>"), ("hash", "HashMapStorage<u32>")]
        ],
        outside="longer histories, more than 3 indices per history, other element types",
    ),
    "C07": dict(
        harnesses=[
            H("c07_" + s, "arbitrary contents, then %d calls of any kind on any index, on a masked %s" % (k, n), I3 + ", %d calls" % k, thorough=s.startswith("t_"))
            for s, n, k in [("vec", "VecStorage", 2), ("dense", "DenseVecStorage", 1), ("hash", "HashMapStorage", 1), ("flagged", "Flagged<VecStorage>", 2),
                            ("t_dense", "DenseVecStorage", 2), ("t_hash", "HashMapStorage", 2), ("t_vec", "VecStorage", 3)]
        ] + [
            H("c07_seq_" + s, "calls in the order %s (i insert, r remove, m get_mut, w get_or_insert_with, g get_guard) on a masked %s" % (k, n), "three distinct arbitrary indices below 2^24, arbitrary u8 values, %d calls" % len(k), thorough=s.startswith("t_"))
            for s, n, k in [("vec", "VecStorage", "iwrgm"), ("dense", "DenseVecStorage", "iirwr"), ("hash", "HashMapStorage", "iwrir"), ("flagged", "Flagged<DenseVecStorage>", "iwrwr")]
        ] + [H("c07_t_seq_dense", "calls in the order iiirwrgr on a masked DenseVecStorage", "three distinct arbitrary indices below 2^24, 8 calls", thorough=True)],
        outside="more than three indices, longer call sequences",
    ),
    "C08": dict(
        harnesses=[
            H("c08_" + s, "drop counts after the calls %s (i insert, r remove, w get_or_insert_with, m assignment) and dropping a masked %s" % (k, n), "three distinct arbitrary indices below 2^24, %d calls" % len(k))
            for s, n, k in [("vec", "VecStorage", "iirwm"), ("dense", "DenseVecStorage", "iirw"), ("hash", "HashMapStorage", "iirw"), ("flagged", "Flagged<VecStorage>", "iwrim")]
        ] + [
            H("c08_world_" + s, "drop counts over a world history (%s) of %s and dropping the world (%s)" % (k, n, WOPS), "one world, one component type, every access and deletion aimed at an arbitrary handle ever returned (alive, pending or stale), %d calls" % len(k))
            for s, n, k in [("vec", "VecStorage", "ccxxkcx"), ("dense", "DenseVecStorage", "cCxxKm"), ("hash", "HashMapStorage", "ccxwKkm"), ("flagged", "Flagged<VecStorage>", "ccxrxkx"),
                            ("again", "VecStorage", "ccxxXxk"), ("off", "DenseVecStorage", "ccxRk"), ("stale", "VecStorage", "cxkcxwr")]
        ] + [
            H("c08_sets_" + s, "drop counts of dynamic component sets (%s: V/D insert a type, v remove, g assign, m merge, C/c clone into)" % k, "two component types, %d calls, concrete" % len(k))
            for s, k in [("a", "VDVgv"), ("b", "DVmC"), ("c", "mDCvc")]
        ] + [
            H("c08_into", "drop counts when a set is inserted for an alive or dead entity that has a component or not", "two entities, two component types, sets of two"),
            H("c08_into_clone", "the same for a cloneable set, inserted twice", "two entities, two component types, sets of two"),
        ],
        outside="more than three indices (four entities), longer histories",
        features=HEAP,
    ),
    "C09": dict(
        harnesses=[
            H("c09_" + s, "what a panic of the callback would leave behind, for a masked %s" % n, I3, peek=True)
            for s, n in [("vec", "VecStorage"), ("dense", "DenseVecStorage"), ("hash", "HashMapStorage"), ("flagged", "Flagged<VecStorage>")]
        ] + [
            H("c09_world", "the same for get_or_insert_with through a world", "two entities, present or absent", peek=True),
            H("c09_world_default", "the same for get_or_default through a world", "two entities, present or absent", peek=True),
        ],
        outside="more than three components",
        features=HEAP,
        assumptions=["unwinding itself is not modelled: the state is inspected at the moment the callback runs, which is the state an unwind would leave (goggles has no drop guard there)"],
    ),
    "C10": dict(
        harnesses=[
            H("c10_" + s, "the modified set after %s, on %s" % (w, n), "two to three distinct arbitrary indices below 2^24, arbitrary presence")
            for s, n, w in [
                ("set", "Flagged<VecStorage>", "tracking, insertions, removals, get_mut"), ("guard", "Flagged<VecStorage>", "guards, read and written"),
                ("insert", "Flagged<VecStorage>", "insertion before and after tracking starts, get_or_insert_with"), ("clear", "Flagged<VecStorage>", "explicit marks and clearing"),
                ("joins", "Flagged<VecStorage>", "joining"), ("joinr", "Flagged<VecStorage>", "joining guards and reading"), ("mod", "Flagged<VecStorage>", "joining the modified indices"),
                ("modmut", "Flagged<VecStorage>", "joining the modified indices mutably"), ("dense", "Flagged<DenseVecStorage>", "joining the modified indices"), ("hash", "Flagged<HashMapStorage>", "tracking, insertions, removals, get_mut")]
        ] + [
            H("c10_w_" + n, "the modified set after world history %s (i insert, r remove, m get_mut, w/d get_or_insert, g reads, x mark, J mutable join, t tracking, c clear, k/K delete now or by merge)" % k, "two entities, every call aimed at either")
            for n, k in abc("iitJ iitgk tiircx titmwK itdkx").items()
        ],
        features=HEAP,
        outside="more indices, longer histories",
    ),
    "C11": dict(
        harnesses=[
            H("c11_" + s, w, I3) for s, w in [
                ("vec_dense", "joining a vector storage, a dense one and a bit set"), ("hash_vec", "joining a hash storage, a vector storage and a bit set"),
                ("dense_flag", "joining a vector storage, a tracked one and a bit set"), ("optional", "joining with optional members"), ("nested", "nested tuples"),
                ("modified", "joining the modified indices of a storage, shared and mutably, with a bit set"), ("sets", "negated, united and intersected bit sets"), ("entities", "joining entities with a storage"),
                ("wide5", "a 5-tuple"), ("wide8", "an 8-tuple"), ("wide16", "a 16-tuple"), ("wide26", "a 26-tuple")]
        ] + [H("c11_world", "entities, component views, optional ones, masks and guards of a world", "three entities, one of them possibly deleted, any of two components present")],
        features=HEAP,
        outside="more than three indices in the universe",
    ),
    "C12": dict(
        harnesses=[
            H("c12_" + s, "par_join of %s: every item exactly once, with its own components" % w, "three indices, arbitrary presence; up to two splits at arbitrary points, parts folded in any order", replay=("debug", "overlay"))
            for s, w in [("vec", "a bit set and two vector storages, one mutable"), ("dense", "a bit set, a vector and a mutable dense storage"), ("hash", "a bit set, a hash and a mutable vector storage"),
                         ("optional", "an optional storage and a bit set"), ("entities", "the entities of an allocator"), ("world", "entities and component views of a world, one mutable"), ("guards", "guards and modified indices"), ("apart", "a bit set and a vector storage with members far apart (70, 5000, 300000)")]
        ],
        features=HEAP,
        outside="more than three items; real data races between workers (the parts run one after the other)",
        assumptions=["rayon's bridge splits a producer zero to two times and folds the parts in any order; hibitset's producer splits at an arbitrary point"],
    ),
    "C13": dict(
        harnesses=[
            H("c13_" + s, w, b, **kw) for s, w, b, kw in [
                ("ops", "the constrained-ness of every operator applied to two arbitrary operands", "operands: every provided kind of set, with arbitrary contents; nesting depth two", {}),
                ("tuples", "tuples of two to five arbitrary members", "each member ordinary, negated or all", {}),
                ("optional", "optional members alone and beside others", "each member ordinary, negated or all", {}),
                ("ordinary", "a storage, a bit set or an allocator beside unconstrained members is accepted", "arbitrary contents", {}),
                ("front", "the checked constructor refuses an unconstrained join", "every kind of unconstrained mask of two members", dict(mode="proponly")),
                ("front_ok", "the checked constructors accept every constrained join and yield it completely", "every kind of constrained mask of two members", {}),
                ("par_front", "the parallel checked constructor refuses an unconstrained join", "every kind of unconstrained mask of two members", dict(mode="proponly")),
                ("unconstrained", "the unconstrained iterator visits exactly the mask's members", "a set of three indices", {})]
        ],
        outside="compositions nested deeper than two operators",
    ),
    "C14": dict(
        harnesses=[
            H("c14_" + s, w, "resources from a universe of 3, up to %s symbolic declarations per set, hash iteration in insertion, reverse and rotated order" % k)
            for s, w, k in [("declare", "reads and writes of a declared set", "3"), ("builder", "the same through the builder methods and from_iters", "3"), ("map", "map keeps a written resource written only", "2"),
                            ("conflict", "conflicts_with in both directions", "2"), ("union", "union contains exactly what either side uses, written wins", "2"), ("union_conflict", "a union conflicts with a third set exactly if one of the two does", "1")]
        ],
        outside="larger sets",
    ),
    "C15": dict(
        features=("six",),
        harnesses=[
            H("c15_" + s, w, "two resources, every read and write set, every internal conflict; %s" % b) for s, w, b in [
                ("pair", "Par and Seq of two systems", "2 systems"), ("chain", "par! and seq! chains, boxed systems", "up to 4 systems"),
                ("lists", "ParList and SeqList", "up to 4 systems"), ("long", "lists of four and five, lists of lists", "up to 5 systems"), ("nested", "compositions within compositions", "up to 4 systems, depth 2"),
                ("fetch", "tuples of one to four fetched members, nested tuples", "up to 4 members"), ("wide", "tuples of five to 26 members, any two of which use something", "up to 26 members")]
        ],
        outside="deeper nesting, longer lists; resources are bit sets here, RwResources is C14's",
    ),
    "C16": dict(
        features=("six",),
        harnesses=[
            H("c16_" + s, "%s: who ran, in which order, and the resulting error" % w, "up to 5 systems, every set of failing ones, %s" % o, **kw) for s, w, o, kw in [
                ("pairs", "Par, Seq, par!, seq! and their nestings", "every order of the two sides of every join", {}), ("lists", "SeqList, short ParList, boxes, nestings", "every order of the two sides of every join", {}),
                ("five", "lists of five and a nesting of five", "every order of the two sides of every join", {}), ("rayon_five", "the same on the rayon pool", "either side of rayon's join first", dict(replay=("debug", "overlay"))),
                ("parlist", "ParList", "every order of the two sides of every join", {}), ("seq_pairs", "the same pairs on the sequential pool", "sequential", {}), ("seq_parlist", "ParList on the sequential pool", "sequential", {}),
                ("rayon_pairs", "the same pairs on the rayon pool", "either side of rayon's join first", dict(replay=("debug", "overlay"))), ("rayon_parlist", "ParList on the rayon pool", "either side of rayon's join first", dict(replay=("debug", "overlay")))]
        ],
        outside="more than five systems; pools that run the two sides interleaved (systems share nothing through goggles)",
    ),
    "C17": dict(
        harnesses=[
            H("c17_" + s, "grouping a list of %s systems" % s, "%s systems, two resources, every read and write set, every internal conflict" % s) for s in ("one", "two", "three", "four")
        ] + [H("c17_five", "grouping a list of five systems", "five systems, two resources, every read and write set, every internal conflict", thorough=True)],
        features=("six",),
        outside="more than four (thorough: five) systems, more than two resources",
    ),
    "C18": dict(
        features=HEAP,
        harnesses=[
            H("c18_" + s, "the calls %s (i insert, r remove, g get_mut, b borrow_mut) on a resource set agree with a map by type" % o, "%d calls, each on one of %d types (one of them not Sync), arbitrary u8 values" % (len(o), n))
            for s, o, n in [("a", "iir", 3), ("b", "iri", 2), ("c", "iigi", 2), ("d", "iirb", 2), ("e", "ibgr", 2)]
        ] + [
            H("c18_granted", "every borrow or fetch that has to be granted is, and is released with its guard", G18),
            H("c18_refused", "every borrow or fetch that must not be granted panics", G18, mode="proponly", reach="ASKED"),
            H("c18_missing", "every way to borrow a missing resource panics, on a set and a world", "every borrowing call", mode="proponly", reach="ASKED"),
            H("c18_world", "a world's resources: insert, replace, borrow, remove", "two types, arbitrary u8 values"),
            H("c18_make_sync", "MakeSync hands back what it was given", "arbitrary u8 values"),
        ],
        outside="more than three resource types, longer call sequences, more than two guards at a time",
    ),
    "C19": dict(
        features=HEAP,
        harnesses=[
            H("c19_" + s, "world history %s on components in %s: every handle reads and changes exactly its own entity's components (%s)" % (k, t, WOPS), "up to 4 handles, every operation aimed at an arbitrary handle (alive, pending or stale), arbitrary u8 values, two component types", thorough=s.startswith("t_"))
            for s, t, k in [
                ("a", "Vec and DenseVec storages", "ccxykcj"), ("b", "Vec and DenseVec storages", "ccxyKmc"), ("c", "DenseVec and HashMap storages", "cCxwKkcj"), ("d", "HashMap and Vec storages", "cCxyKmck"),
                ("e", "Flagged and HashMap storages", "ccxgKkmc"), ("f", "Vec and HashMap storages", "ccxxkr?c"), ("g", "DenseVec and Vec storages", "ccxykCxj"), ("h", "Flagged and DenseVec storages", "cxKymcwj"),
                ("i", "Vec and DenseVec storages", "ccxkdGcg"), ("j", "Vec and DenseVec storages", "ccxyRkXx"), ("k", "HashMap and DenseVec storages", "CCyxXKmC"), ("l", "Vec and DenseVec storages", "cxkcxk"), ("m", "DenseVec and Vec storages", "cxKmcyxK"),
                ("t_a", "Vec and DenseVec storages", "ccxyKxmcyj"), ("t_b", "DenseVec and HashMap storages", "ccxyKkCxmj"), ("t_c", "Flagged and HashMap storages", "cCxyKmxkcj")]
        ] + [H("c19_marks", "marking a component modified through an alive and through a stale handle", "three entities, one deleted")],
        outside="more than two component types or four handles, longer histories",
    ),
    "C20": dict(
        features=HEAP,
        harnesses=[
            H("c20_" + s, "the declared resources of %s" % w, "every provided view of two types") for s, w in [("resources", "entities and resource views"), ("components", "component views"), ("tuple", "a tuple of four views"), ("same", "views of a resource and a component of the same type"), ("nested", "nested tuples"), ("set_ids", "views of a resource set")]
        ] + [
            H("c20_%s_%s" % (s, r), "%s beside every other view of a world: %s" % (w, x), "8 second views (entities, resources, components, a tuple, nothing)", **kw)
            for s, w in [("rr", "ReadResource"), ("wr", "WriteResource"), ("rc", "ReadComponent"), ("wc", "WriteComponent"), ("tuple", "(ReadComponent, WriteResource)")]
            for r, x, kw in [("ok", "undeclared conflicts are no conflicts, nothing stays borrowed", {}), ("refused", "declared conflicts cannot be fetched together", dict(mode="proponly", reach="ASKED"))]
        ] + [
            H("c20_set_ok", "pairs of views of a resource set, undeclared conflicts are no conflicts", "6 pairs"),
            H("c20_set_refused", "pairs of views of a resource set, declared conflicts cannot be fetched together", "6 pairs", mode="proponly", reach="ASKED"),
        ],
        outside="tuples of more than four views, other types (the code is generic in them)",
    ),
    "C21": dict(
        features=HEAP,
        harnesses=[
            H("c21_set_" + s, "the calls %s (i insert, r remove, g get_mut) on a component set and a cloneable one agree with a map by type" % o, "%d calls, each on one of two component types, arbitrary u8 values" % len(o))
            for s, o in [("a", "iig"), ("b", "ir"), ("c", "igi")]
        ] + [
            H("c21_" + s, w, "three component types, fixed members, arbitrary u8 values")
            for s, w in [("merge_none", "merging into an empty set"), ("merge_other", "merging disjoint sets"), ("merge_first", "merging overlapping sets"), ("merge_last", "merging overlapping sets"),
                         ("merge_clone", "merging overlapping cloneable sets"), ("merge_clone_other", "merging disjoint cloneable sets"), ("clone_into", "cloning into a set"), ("clone_into_other", "cloning into a disjoint set")]
        ] + [
            H("c21_world_" + s, "inserting %s into a world for an alive, pending, new or dead entity" % w, "four entities, any of their components present beforehand, arbitrary u8 values")
            for s, w in [("none", "an empty set"), ("ab", "a set of two components"), ("ac", "a set of two components"), ("clone_ab", "a cloneable set of two components"), ("clone_c", "a cloneable set of one component")]
        ],
        outside="more than three component types, longer call sequences",
    ),
    "C22": dict(
        harnesses=[
            H("c22_" + s, "slices of a dense storage agree with the components after %s" % w, I3, thorough=s.startswith("t_"))
            for s, w in [("none", "arbitrary contents"), ("i", "an insertion"), ("r", "a removal"), ("ri", "a removal and an insertion"), ("w", "a removal and get_or_insert_with"), ("rr", "two removals"), ("t_rir", "two removals and two insertions")]
        ] + [H("c22_world", "the same through component views of a world, after a deletion", "three entities, one deleted, any of their components present")],
        features=HEAP,
        outside="more than three components",
    ),
}

NOT_APPLICABLE = {
    "C23": "Send/Sync bounds and lifetimes are decided by rustc's type checker at compile time; there is no run-time state or input to make symbolic, and the code that would violate them in a user crate does not exist as a program to execute. Observations from reading are in DESIGN.md.",
    "C24": "The property is about unwinding through a panicking destructor; Kani/CBMC compile with panic=abort semantics and have no model of unwinding, so the drop guard that implements it is never executed symbolically.",
}

HOOKS = {"guard": "cfg goggles_verif", "enable": "RUSTFLAGS=--cfg goggles_verif (check C05 only: its harnesses and its native replays)", "source_commits": ["eddb166"]}
