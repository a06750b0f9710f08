#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Entity handles are never handed out twice",
  "No two creations performed on one entity allocator (or one world) ever return equal entity handles, whatever mixture of immediate and deferred creations, deletions and merges lies between them, and a handle's generation is never zero. An index is given out again only after the entity that held it has been deleted, and then with a larger generation.",
  ["histories"], "every finite history of immediate/deferred create, delete and merge calls, with any handles (current or stale) as arguments",
  "tests/entity.rs runs a few fixed histories and compares counts; uniqueness must hold after every history, including ones that mix deferred and immediate deletion of the same entity.",
  ["src/entity.rs", "src/world.rs"],
  [("generation bump on re-use", "src/entity.rs Allocator::allocate / allocate_atomic / Generation::raised"), ("free-index cache", "src/entity.rs EntityCache")],
  [("generations", "sign = alive/dead, magnitude = number of lives of the index", "src/entity.rs")],
  ["Allocator::allocate", "Allocator::allocate_atomic", "World::create_entity", "Entities::create"])
p("C02", "Liveness answers are exact and stale handles are inert",
  "At every point of every history, an entity is reported alive (by handle, by index, through the live set and by joining over the entities) exactly if it has been created and not yet been deleted or merged away. Deleting, immediately or deferred, is accepted exactly for alive handles; for any other handle it returns the wrong-generation error and changes nothing.",
  ["histories", "inputs"], "every history of allocator calls and every handle argument, including handles that are stale or come from another allocator",
  "The tests check liveness of a handful of entities at a handful of moments and never pass a stale handle to every operation in every state.",
  ["src/entity.rs", "src/world.rs"],
  [("is_alive / entity / live_bitset", "src/entity.rs Allocator"), ("kill / kill_atomic", "src/entity.rs Allocator")],
  observe=["Allocator::is_alive", "Allocator::entity", "Allocator::live_bitset", "Join for &Allocator"])
p("C03", "Merging finalises exactly the pending deletions, once",
  "A deferred deletion leaves the entity alive until the next merge; that merge deletes exactly the entities that have been deferred for deletion since the previous merge and are still alive, and reports each of them exactly once, whatever the list passed in contained before. Entities created in deferred mode stay alive across the merge with the same handle, and a second merge with nothing pending reports nothing.",
  ["histories"], "every history of deferred/immediate creations and deletions before a merge, including repeated deferrals and immediate deletion of a deferred entity",
  "The tests call merge on a few patterns; they never combine deferred creation, deferred deletion and immediate deletion of the same entity in all orders.",
  ["src/entity.rs", "src/world.rs"],
  [("merge_atomic", "src/entity.rs Allocator::merge_atomic"), ("World::merge", "src/world.rs")],
  observe=["Allocator::merge_atomic"])
p("C04", "Concurrent deferred creation and deletion is linearizable",
  "When several threads create and delete entities through a shared reference at the same time, every thread gets handles that differ from all other handles ever given out, every handle is immediately alive for the thread that got it, free indices are consumed at most once each, and no requested deletion is lost. After the next merge the set of alive entities is exactly the entities alive before, plus those created, minus those deleted.",
  ["schedules"], "every sequentially consistent interleaving of the atomic accesses of the shared-reference operations",
  "No test uses more than one thread on an allocator; races need a specific interleaving between reading and updating a counter.",
  ["src/entity.rs"],
  [("atomic_increment / atomic_decrement", "src/entity.rs"), ("EntityCache::pop_atomic", "src/entity.rs")],
  [("cache.len", "how many free indices are left", "src/entity.rs"), ("index_len", "first never-used index", "src/entity.rs")],
  ["Allocator::allocate_atomic", "Allocator::kill_atomic"])
p("C05", "Generation exhaustion is loud",
  "When an index has used up its last generation, creating another entity on it panics in both immediate and deferred mode. It never returns a handle equal to one returned before, nor one that is not reported alive.",
  ["histories"], "every generation value an index can reach, up to the largest",
  "Reaching the limit takes 2^31 creations on one index; no test goes near it.",
  ["src/entity.rs"], [("Generation::raised checked_sub", "src/entity.rs")],
  observe=["Allocator::allocate", "Allocator::allocate_atomic"], hook="constructor of an allocator with chosen generations (cfg goggles_verif)")
p("C06", "Every raw storage is a map from index to component",
  "For each of the vector, dense-vector, hash-map and change-tracking storages, after any legal sequence of insertions, removals and in-place updates, reading a non-empty index returns the value last stored there and removing it returns that value, no matter which other indices were inserted or removed in between and how sparse they are.",
  ["histories", "inputs"], "every legal operation sequence over every choice of indices",
  "tests/storage.rs does one fixed insert/get/remove sequence per storage; swap-removal and sparse growth depend on the order and distance of the indices.",
  ["src/storage.rs", "src/tracked.rs"],
  [("uninitialised growth", "src/storage.rs VecStorage::insert"), ("swap removal", "src/storage.rs DenseVecStorage::remove")],
  observe=["RawStorage::get", "RawStorage::get_mut", "RawStorage::insert", "RawStorage::remove"])
p("C07", "A masked storage behaves as a safe map for every call sequence",
  "After any sequence of calls, a masked storage over any of the storages answers membership, lookup (shared, mutable, guarded), insertion (returning the replaced value), get-or-insert (calling the constructor only when empty) and removal exactly as a map from index to component would, and its mask is exactly the set of present indices.",
  ["histories", "inputs"], "every sequence of safe calls with arbitrary indices and values, for every provided storage type",
  "The tests exercise storages indirectly through a few fixed sequences; overwriting, re-inserting after removal and absent indices are not combined.",
  ["src/masked.rs", "src/storage.rs", "src/tracked.rs"],
  [("mask kept in step with the storage", "src/masked.rs MaskedStorage")],
  observe=["MaskedStorage public methods"])
p("C08", "Every component value is dropped exactly once",
  "Each component value handed to a storage or component set is dropped exactly once: by whoever received it back (replacement or removal), or when it is overwritten, its entity is deleted or merged away, or its storage, its set or the world is dropped. Nothing is leaked and nothing is dropped twice or while still present.",
  ["histories"], "every sequence of insertions, replacements, removals, entity deletions and merges followed by dropping the container",
  "tests/drop.rs drops one world with a hundred present components; removals, replacements and sparse indices before the drop are not covered.",
  ["src/masked.rs", "src/storage.rs", "src/world.rs"],
  [("Drop for MaskedStorage", "src/masked.rs"), ("remove_components", "src/world.rs")],
  observe=["component destructors"])
p("C09", "A panicking constructor callback leaves the storage consistent",
  "If the callback passed to get-or-insert panics, the storage afterwards is exactly what it was before the call: the index is still absent, other components are untouched, and later use or drop of the storage touches no value that was never stored.",
  ["fault_sequences", "histories"], "a panic at the callback of get-or-insert, in every state of the storage",
  "No test makes a callback panic.",
  ["src/masked.rs", "src/world.rs"], [("order of mask update and insertion", "src/masked.rs MaskedStorage::get_or_insert_with")],
  observe=["MaskedStorage::get_or_insert_with"])
p("C10", "Change tracking flags exactly the touched indices",
  "While tracking is on, the set of modified indices is exactly the set of indices that were inserted, removed, mutably accessed or explicitly marked since the set was last cleared; while tracking is off only explicit marks are added, and reading or merely obtaining a guard never marks. Joining over modified indices yields each of them exactly once, with the component if it is present and nothing if it was removed.",
  ["histories"], "every sequence of storage calls, tracking toggles and clears",
  "tests/flagged.rs runs fixed scenarios; the set must be exact after every mixture of access paths.",
  ["src/tracked.rs", "src/masked.rs", "src/world.rs"],
  [("Flagged get_mut/insert/remove", "src/tracked.rs"), ("GuardedElement, ModifiedJoin", "src/masked.rs")],
  observe=["MaskedStorage::modified_indexes", "MaskedStorage::modified"])
p("C11", "A join visits exactly the common indices, in order, once",
  "Joining any tuple of storages, entities, bit sets and optional or negated members yields exactly the indices present in every required member, in ascending order, each once, and every yielded item is the one belonging to that index in each member. Optional members yield their item when present and nothing otherwise, without restricting the result.",
  ["inputs", "programs"], "every content of the joined members and every combination and number of members",
  "tests/join.rs joins one fixed pair of bit sets; tuple arities, optional members and mutable storages are sampled at a single point.",
  ["src/join.rs", "src/masked.rs", "src/entity.rs"],
  [("mask intersection", "src/join.rs BitAnd, JoinTuple, MaybeJoin"), ("JoinIter", "src/join.rs")],
  observe=["IntoJoinExt::join"])
p("C12", "A parallel join visits the same items as the sequential one",
  "For the same members, the parallel join hands every item of the sequential join to the consumer exactly once and nothing else, however the work is split and in whichever order the parts run.",
  ["schedules", "inputs"], "every split of the index set and every order of running the parts",
  "The one parallel test sums a fixed set; a lost or duplicated part shows only for particular splits.",
  ["src/par_join.rs"], [("JoinProducer::split / fold_with", "src/par_join.rs")],
  observe=["ParJoinExt::par_join"])
p("C13", "Only joins bounded by some member can be iterated safely",
  "The checked join constructors, sequential and parallel, refuse a join exactly if its mask is unconstrained according to the documented rules: all-sets are unconstrained, negation inverts, intersection is constrained if either side is, union and symmetric difference if both are. Optional-only and negated-only joins are refused; a join with at least one ordinary member is accepted.",
  ["programs", "inputs"], "every composition of the provided set types, with any contents",
  "No test builds an unconstrained join.",
  ["src/join.rs", "src/par_join.rs"], [("BitSetConstrained", "src/join.rs")],
  observe=["JoinIter::new", "IntoJoinExt::join", "par_join::JoinParIter::new"])
p("C14", "Read/write resource sets detect exactly the real conflicts",
  "Two resource sets conflict exactly if some resource is written by one and read or written by the other, independently of the order of the two; a resource that is both read and written counts as written only, and is listed once. The union of two sets is the set of everything read or written by either, so that it conflicts with a third set exactly if one of the two does.",
  ["inputs", "histories"], "every pair and triple of resource sets, built by any sequence of additions, unions and mappings",
  "The tests only reach this through a few system combinations; conflicts depend on which side reads and which writes and on the order of additions.",
  ["src/resources.rs"], [("conflicts_with / union / add_read / add_write", "src/resources.rs")],
  observe=["RwResources public methods"])
p("C15", "Composite systems and fetches report every conflict and every use",
  "Checking a parallel composition fails exactly if one of its parts fails its own check or two parts that may run at the same time conflict; a sequential composition fails exactly if one of its parts does. On success the reported resources are the union of what all parts use, so nothing a nested part uses is hidden from an enclosing composition; the same holds for tuples of fetched data, where any two members count as used at the same time.",
  ["programs", "inputs"], "every nesting of compositions and tuples and every assignment of resources to the parts",
  "tests/system.rs checks two fixed system graphs.",
  ["src/system.rs", "src/fetch_resources.rs"],
  [("check_resources of Par, Seq, ParList, SeqList", "src/system.rs"), ("tuple check_resources", "src/fetch_resources.rs")],
  observe=["System::check_resources", "FetchResources::check_resources"])
p("C16", "Running a composition runs each system as its structure says",
  "Running a sequential composition runs its systems in order, stopping at the first error and returning that error. Running a parallel composition runs every system exactly once with the given arguments, whichever side the pool runs first, and returns success exactly if all succeed, otherwise the combination of the errors that occurred in the order of the systems.",
  ["programs", "schedules", "fault_sequences"], "every nesting, every set of failing systems and every order a pool may choose",
  "tests/system.rs runs fixed graphs without errors on one pool.",
  ["src/system.rs", "src/rayon_pool.rs"],
  [("run of Par, Seq, ParList, SeqList", "src/system.rs"), ("Pool::join", "src/system.rs, src/rayon_pool.rs")],
  observe=["System::run"])
p("C17", "Automatic parallelization keeps order and avoids conflicts",
  "Parallelizing a list of systems returns every system exactly once, in the original order, grouped so that no two systems of one group conflict; conflicting systems therefore still run in their original relative order. Groups are maximal from the front: the first system of each later group conflicts with the group before it or cannot be grouped because it (or its predecessor) has an internal conflict, in which case it stands alone and the final check reports it.",
  ["inputs", "programs"], "every list of systems and every assignment of resources, including systems with internal conflicts",
  "tests/system.rs parallelizes one fixed list.",
  ["src/system.rs"], [("parallelize", "src/system.rs")],
  observe=["parallelize"])
p("C18", "A resource set is a typed map with checked borrows",
  "Inserting, removing, replacing and looking up resources behaves as a map keyed by type: a value comes back unchanged and only under its own type. Borrowing a missing resource panics; a mutable borrow panics while any borrow of the same resource is alive and a shared one while a mutable one is, and every other combination is granted and released when the guard goes.",
  ["histories"], "every sequence of insert, remove, borrow and release over several types",
  "tests/resource_set.rs performs one conflict-free sequence.",
  ["src/resource_set.rs", "src/world.rs", "src/make_sync.rs"],
  [("AtomicRefCell per resource", "src/resource_set.rs"), ("MakeSync", "src/make_sync.rs")],
  observe=["ResourceSet public methods", "World resource methods"])
p("C19", "Components live and die with their entity",
  "In a world, component access through an entity handle succeeds only while that entity is alive; a stale handle reads nothing and changes nothing. Deleting an entity, immediately or by merge, removes its components of every registered type, so a new entity on a recycled index starts without components, and the components of other entities are untouched.",
  ["histories"], "every history of entity creation, deletion, merging and component operations, with any handle, over several component types",
  "tests/world.rs follows a few entities through one history.",
  ["src/world.rs", "src/any_components.rs"],
  [("remove_components callbacks", "src/world.rs insert_component / delete_entity / merge"), ("ComponentAccess liveness checks", "src/world.rs")],
  observe=["World", "ReadComponent/WriteComponent", "get_component_mut"])
p("C20", "Declared resources cover what fetching borrows",
  "For every fetchable view of a world or resource set, and tuples of them, the declared resources are exactly the ones the fetched view borrows, with the access mode it borrows them in. Hence fetching two views whose declared resources do not conflict never fails on a borrow, and two views on one resource that both write, or of which one writes, are always declared as conflicting.",
  ["programs"], "every pair and tuple of the provided fetchable views",
  "The tests fetch a few tuples and never compare the declaration with the borrow.",
  ["src/world.rs", "src/resource_set.rs", "src/fetch_resources.rs", "src/world_common.rs"],
  [("FetchResources impls", "src/world.rs, src/resource_set.rs")],
  observe=["FetchResources::check_resources", "World::fetch", "ResourceSet::fetch"])
p("C21", "Dynamic component sets transfer components faithfully",
  "A dynamic component set holds at most one value per component type and returns it unchanged under its own type; merging overwrites with the other set's values and reports whether anything was overwritten. Inserting a set into a world gives an alive entity exactly the set's components, replaces existing ones (reporting that), and leaves the world unchanged for a dead entity; the cloneable variant keeps its own values.",
  ["histories", "inputs"], "every sequence of set operations over several component types, every target entity",
  "tests/any_components.rs inserts one fixed set.",
  ["src/any_components.rs"], [("AnyComponentSet / AnyCloneComponentSet", "src/any_components.rs")],
  observe=["AnyComponentSet and AnyCloneComponentSet public methods"])
p("C22", "Dense slices hold exactly the present components",
  "For densely stored components, the slice view contains exactly the values of the present indices, each once, after any sequence of insertions, updates and removals; a write through the mutable slice is what a lookup then sees.",
  ["histories"], "every sequence of insertions, updates and removals over arbitrary indices",
  "tests/storage.rs looks at the slice in one state.",
  ["src/storage.rs", "src/masked.rs", "src/world.rs"], [("swap removal", "src/storage.rs DenseVecStorage")],
  observe=["MaskedStorage::as_slice", "ComponentAccess::as_slice"])
p("C23", "Thread-safety bounds match what shared access can reach",
  "Safe code can neither move a component or resource that is not sendable to another thread nor share one that is not shareable through any provided wrapper, join or system, and cannot obtain two live mutable references to one component.",
  ["programs"], "every safe program using the crate",
  "Compile-time obligations; tests only contain programs that compile.",
  ["src/make_sync.rs", "src/storage.rs", "src/masked.rs", "src/par_join.rs"], [("unsafe Send/Sync impls and bounds", "src/storage.rs, src/make_sync.rs")])
p("C24", "A panicking component destructor does not leak the rest",
  "If a component's destructor panics while a storage is being dropped, the remaining components are still dropped.",
  ["fault_sequences"], "a panic in the destructor of any present component",
  "No test has a panicking destructor.",
  ["src/masked.rs"], [("DropGuard", "src/masked.rs Drop for MaskedStorage")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
