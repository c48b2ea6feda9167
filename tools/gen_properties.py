#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

REG="src/registry/registry.rs"; DA="src/archetype/data_access.rs"; AM="src/archetype/mod.rs"
AR="src/archetype_registry/mod.rs"; ER="src/entity_registry/mod.rs"; EN="src/entity_registry/entry.rs"
EH="src/entity_registry/entity.rs"; CG="src/descriptors/component_group.rs"; CGD="src/descriptors/component_group_descriptor.rs"
AD="src/descriptors/archetype_descriptor.rs"; CD="src/descriptors/component_descriptor.rs"
IT="src/archetype_registry/iterators/"

prop("C01","Live entities keep exactly the components last stored in them",
 "After any sequence of entity creations, destructions, removals, component additions, component removals and writes, every live entity has exactly the set of components its own history gives it, and reading any of them, singly or as part of a group, returns the value most recently stored there. No operation on one entity ever changes, swaps, loses or exposes another entity's data. This holds for every component size and alignment and for any number of entities sharing or not sharing a component set.",
 ["histories","inputs"],"all histories of registry operations over all component types (zero-sized, small, large, over-aligned, heap-owning), component sets of 1..14 members and entity counts up to and beyond every storage growth step",
 "The unit tests follow three 8-byte component types through one scripted history and check only default values after moves; they never track which entity's value ended where, so a wrong row, stride or swap partner is invisible when all values are equal.",
 [REG,DA,AM,AR],[("swap-to-last row compaction and index fix-up",REG),("typed/untyped column copy between archetypes",DA),("growth by reallocation",DA)],
 [("row index of an entity","which row of its archetype's columns belongs to the entity",ER),("columns","one raw buffer per component type",AM)],
 ["Registry::get_component","Registry::get_components"])

prop("C02","A handle resolves exactly while its entity is alive",
 "A handle returned by entity creation is accepted by every operation until that entity is destroyed or removed, whatever happens to other entities in between, and is refused by every operation afterwards; a null handle and any handle value that the registry has not issued is always refused. No two live entities share a handle, and a handle value is not issued again until its slot has been recycled 256 times.",
 ["histories","inputs"],"all histories of creation and destruction (in any order, with any slot reuse depth) and every 32-bit handle value presented at any moment",
 "Tests destroy 1024 entities in one order and once; they never recycle a slot past version 1, never reach the version wrap-around, never present forged handles, and never check that a stale handle stays dead after its slot is reused by a different entity.",
 [ER,EH,EN,REG],[("version check and bump on destruction",ER),("free-slot list",ER),("handle bit layout",EH)],
 [("slot version","generation counter of a slot",EN),("free list","destroyed slots chained for reuse",ER)],
 ["every Registry method taking an Entity"])

prop("C03","Every component value is dropped or handed back exactly once",
 "Each component value moved into a registry is, exactly once, either returned to the caller (removal, or refusal of the operation) or dropped; it is dropped only when its entity is destroyed or the registry itself is dropped, never while it can still be reached, and never later than the end of the destroying call. Adding, removing, iterating, reading or growing storage drops nothing.",
 ["histories","inputs"],"all histories of registry operations over component types with and without destructors, including zero-sized ones, ending in dropping the registry at any point",
 "The DropLog types print but nothing counts the drops; no test asserts how often any value was dropped, nor that values survive moves between component sets, nor what the registry's own drop releases.",
 [REG,DA,AM,CD],[("drop handler per component type",CD),("swap-drop / swap-remove",DA),("archetype destructor",AM),("forget after bitwise move",DA)],
 [],["Drop of instrumented component types"])

prop("C04","Matching iteration visits every matching entity exactly once",
 "Iterating over the entities that have at least the components of a group yields every live entity with all of those components exactly once and no other entity, with all slices of an item equally long and position i of every slice belonging to the same entity. The shared and the mutable forms, with and without entity handles, yield the same rows, and an exhausted iterator stays exhausted. This holds however it is consumed (singly, skipping, counting or as a whole), and its size hint is never false.",
 ["histories","inputs"],"all registry states reachable by any history, for every group of 1..14 components in any order, whatever other component sets exist, including emptied ones",
 "Tests iterate two groups over at most two component sets whose values are equal or positional; completeness, absence of duplicates, and row alignment over many sets of 1..14 components are never checked.",
 [AR,IT+"archetype_iter.rs",IT+"archetype_iter_mut.rs",IT+"matching_iter.rs",IT+"matching_iter_mut.rs",DA],[("level-wise walk over archetypes by component count",IT+"archetype_iter.rs"),("subset test",AD),("column lookup for a sub-group",DA)],
 [("sorted archetype index","per component count, the archetypes sorted by identity",AR)],
 ["Registry::iter_components_matching(_mut)","Registry::iter_entity_components_matching(_mut)"])

prop("C05","Filtered iteration is matching iteration restricted by the filter",
 "A filtered iteration yields exactly the rows of the corresponding unfiltered matching iteration whose entities' component set the filter accepts. The filter is shown the true component set of the entities it decides about, only for sets that contain the group. All four filtered forms agree with each other. A filter that panics leaves the registry as it was.",
 ["histories","inputs"],"all registry states, groups and filter predicates over component sets (including stateful, constant and set-dependent ones)",
 "No test in the suite uses filtered iteration at all.",
 [IT+"filter_archetype_iter.rs",IT+"filter_archetype_iter_mut.rs",IT+"filter_matching_iter.rs",IT+"filter_matching_iter_mut.rs",AR],[("filter applied after the subset test",IT+"filter_archetype_iter.rs")],
 [],["Registry::iter_filtered_components_matching(_mut)","Registry::iter_filtered_entity_components_matching(_mut)"])

prop("C06","Exact iteration sees precisely the entities with that component set",
 "Exact access for a group returns every live entity whose component set equals the group's set, exactly once, and no other, regardless of the order in which the group or the creating tuple names the components and regardless of whether the entity reached that set by creation, by adding components or by removing them. All returned slices have the same length and are aligned row by row, and are empty when no such entity exists.",
 ["histories","inputs"],"all registry states and all groups of 1..14 components in any order; all routes (creation, additions, removals, mixes) by which an entity can reach a component set",
 "No test calls the exact iteration functions; archetype identity computed along different routes is never compared.",
 [REG,AR,AD,CGD],[("archetype identity",AD),("exact archetype lookup",AR),("identity of a group",CGD)],
 [("archetype id","identity of a component set",AD)],["Registry::iter_components_exact(_mut)","Registry::iter_entity_components_exact(_mut)"])

prop("C07","Safe use of a registry never causes undefined behaviour",
 "No sequence of safe registry calls over component types within the documented size and alignment limits - including zero-sized, over-aligned, padded and heap-owning types - causes undefined behaviour: no out-of-bounds, use-after-free, uninitialised, misaligned or null access, no invalid aliasing, no allocator misuse (zero-sized requests, mismatched layouts, double free). Every reference and slice handed out is correctly aligned, non-overlapping where mutable, and dropping the registry releases all its memory. References and slices stay valid for as long as the compiler lets safe code use them: code that would outlive, alias, or carry them or unfit values across threads does not compile, and neither does code that stores types beyond those limits.",
 ["histories","inputs"],"all histories of safe calls over all admissible component layouts; all safe programs the compiler accepts",
 "The unit tests run without any sanitizer or interpreter, on three usize-sized types, so an invalid access that happens not to crash passes.",
 [AM,DA,REG,IT+"archetype_iter_mut.rs",CG],[("manual allocation, growth and deallocation of columns",DA),("unchecked indexing guarded by entity records",REG),("raw pointer re-borrows in mutable iterators",IT+"archetype_iter_mut.rs")],
 [],["Miri, AddressSanitizer, checking global allocator"])

prop("C08","Groups naming a component twice are refused harmlessly",
 "A group that names the same component more than once is refused by every operation that accepts a group: creation hands the values back, reads and removals find nothing, presence is reported false, iterations are empty. Such a call never panics, never causes undefined behaviour and never changes the registry.",
 ["inputs","histories"],"all groups of 2..14 members with any duplication pattern, presented to every operation in every registry state",
 "Only the validity flag of one duplicate pair is tested; no operation is ever called with such a group.",
 [CGD,REG,AR,IT+"archetype_iter.rs"],[("group validation",CGD),("validity checks at entry points",REG)],
 [],["all group-taking Registry methods"])

prop("C09","The full entity capacity is usable and its limit refused cleanly",
 "A registry can hold 16,777,215 live entities at once, all in one component set or spread over several, with every entity intact as storage grows; one more creation is refused by handing the components back. After entities are destroyed at the limit, exactly as many can be created again, and component additions and removals keep working at the limit.",
 ["histories","configurations"],"all ways of reaching the limit (single or several component sets, creation or migration) and all destroy/create patterns at the limit",
 "The largest test holds 1032 entities; growth past 1024 rows and any limit behaviour are never reached.",
 [ER,DA,REG,"src/constants.rs"],[("capacity doubling",DA),("slot limit and reuse",ER),("row index limit","src/entity_registry/index_in_archetype.rs")],
 [("capacity","rows allocated per archetype",AM)],["Registry::create_entity","Registry::add_component"])

prop("C10","Very many component sets work and their limit is refused cleanly",
 "A registry can hold 65,534 distinct component sets at once, with every operation and iteration still correct; any operation that would need one more set fails by handing its input back and leaves entity and registry unchanged, while operations among the existing sets keep working.",
 ["histories","configurations"],"all collections of distinct component sets up to and beyond the limit, in any order of first use",
 "Tests never create more than a handful of component sets.",
 [AR,"src/constants.rs"],[("archetype limit check",AR),("sorted index insertion",AR)],
 [("archetype index","16-bit position of a component set",EN)],["Registry::add_component","ArchetypeRegistry::find_or_create_archetype"])

prop("C11","Entities carry any one to fourteen components",
 "Any set of 1 to 14 components can be reached on an entity by creation or by adding components one at a time in any order, and can be reduced again by removing them in any order. Adding a component already present or a fifteenth one, and removing an absent one or the last one, fails and changes nothing; nothing in this range ever panics.",
 ["histories","inputs"],"all component sets of size 0..15, all orders and positions of addition and removal",
 "Tests stop at three components; the boundary sizes 13, 14 and 15 and the insertion/removal positions within a set are never exercised.",
 [AD,REG,CG,"src/constants.rs"],[("sorted insertion/removal in a set",AD),("tuple implementations up to 14",CG)],
 [],["Registry::add_component","Registry::remove_component","Registry::create_entity"])

prop("C12","A panicking destructor never corrupts the registry",
 "If a component's destructor panics while an entity is being destroyed or the registry dropped, no component value is dropped a second time or becomes reachable after being dropped, the destroyed entity's handle is dead, every other entity stays intact, and the registry remains usable.",
 ["fault_sequences","histories"],"a panic at any destructor invocation of any history",
 "No test has a panicking destructor.",
 [REG,DA,AM,CD],[("order of bookkeeping and destructor calls",REG),("swap-drop",DA)],
 [],["catch_unwind around destroy_entity and drop"])

prop("C13","Allocation failure panics without corrupting the registry",
 "If component storage cannot be allocated during an operation, the operation panics and the registry remains consistent: existing entities keep their handles and data, no half-created or half-moved entity is visible, the component passed in is dropped exactly once by the unwinding, and later operations and the registry's own drop work normally.",
 ["fault_sequences","histories"],"failure of any single storage allocation, or of all of them from some point on, in any history",
 "No test injects allocation failures.",
 [AM,DA,REG,AR],[("null checks on allocation",AM),("growth",DA),("order of registration and growth",REG)],
 [],["failing global allocator + catch_unwind"])

prop("C14","Concurrent readers never race and registries never interfere",
 "Any number of threads may read one registry through shared references at the same time, and threads may write to different slices of one mutable iteration, without data races, each seeing exactly what a single-threaded reader would see. A registry may be handed between threads, and distinct registries used on different threads never influence each other, nor do they on one thread when one is used by the destructors, filters or loop bodies that another is running.",
 ["schedules","histories"],"all interleavings of shared read operations on any registry state; all assignments of mutable slices to threads; all interleavings of work on distinct registries",
 "All tests are single-threaded.",
 [AM,AR,REG,ER],[("unsafe Send/Sync of archetypes",AM),("no interior mutability in shared paths",AR)],
 [],["ThreadSanitizer and Miri over multi-threaded workloads"])

prop("C15","Component-set descriptors behave as mathematical sets",
 "Descriptors of component sets obey set algebra: inclusion, disjointness, membership, size, adding and removing answer exactly as for the sets of component types they describe, whatever the order in which a set was named or built. Two descriptors have equal identity whenever they describe the same set, and refused additions or removals (duplicate, absent, fifteenth, last) yield nothing. A group's descriptor maps each member to its place in the set's list of components, and back. What is no set of one to fourteen distinct components is the invalid descriptor, which is empty.",
 ["inputs"],"all component sets of size 1..14, all pairs of them, and all construction routes (group, single component, additions, removals)",
 "Tests check three or four hard-coded inclusions among three components and never the identity of equal sets built differently.",
 [AD,CGD,CD],[("sorted component array",AD),("identity computation",AD),("group sorting",CGD)],
 [],["ArchetypeDescriptor public methods","ComponentGroup::DESCRIPTOR"])

prop("C16","Entity records and handles round-trip exactly",
 "The entity store returns, for each live handle, exactly the location last recorded for it, for every 24-bit row and 16-bit set index, and nothing for dead handles and values never issued; writing one field of a handle or record never disturbs another field. Creating, destroying and enumerating agree with a map from live handles to locations under any interleaving.",
 ["histories","inputs"],"all create/update/destroy histories on the store and all values of index (24 bit), version (8 bit), row (24 bit) and set index (16 bit)",
 "Tests use ten sample values per field and one create/destroy pattern.",
 [ER,EN,EH,"src/entity_registry/index_in_archetype.rs","src/entity_registry/archetype_index.rs","src/entity_registry/iterator.rs"],[("packed 6-byte record",EN),("handle packing",EH),("free list",ER)],
 [],["EntityRegistry, EntityEntry, Entity public methods"])

prop("C17","Component storage keeps rows intact under its raw operations",
 "Used within its documented contract, the storage of one component set behaves as a growable list of rows: pushing appends, swapping exchanges whole rows, swap-removal returns and swap-drop destroys the addressed row while the last row takes its place, and all other rows, their handles and their order are untouched. Reported length, capacity and fullness are consistent, and every view (single component, group in any order, sub-group, slices) shows the same rows.",
 ["histories","inputs"],"all contract-respecting operation sequences on storages of every component set and initial capacity, through all growth steps",
 "Tests push at most two rows into one storage and swap them; growth, swap-removal and swap-drop of the storage are never tested.",
 [DA,AM],[("row push / swap / drop",DA),("growth",DA),("column pointer lookup",DA)],
 [],["Archetype public methods"])

prop("C18","Each distinct component set has exactly one storage",
 "Looking up or creating the storage for a component set always yields one and the same storage for equal sets, however the set was described, and different storages for different sets, whatever their identifiers hash to; an index once given stays valid for that set. Looking up a set that has not been created finds nothing and creates nothing, and invalid sets or out-of-range sources are refused.",
 ["histories","inputs"],"all sequences of lookups and creations over all component sets, including distinct sets whose identities collide",
 "One test creates one set; no test looks up absent sets, repeats a creation, or uses colliding identities.",
 [AR,AD],[("sorted index with binary search",AR),("archetype identity hash",AD),("disjoint mutable pair",AR)],
 [("sorted archetype index","maps identity to storage index",AR)],["ArchetypeRegistry public methods"])

prop("C19","Component identifiers are a stable function of the name",
 "Unless overridden, a component type's identifier is the 16-bit xor-folded 32-bit FNV-1a hash of its name, the same in every build and run, at compile time and at run time. The hash functions equal reference FNV-1a for every byte string, and a length limit hashes exactly that prefix, or everything if it is zero or too long.",
 ["inputs"],"all byte strings and all length limits, at compile time and at run time",
 "No test computes any hash or checks any default identifier.",
 ["src/fnv1a.rs","src/descriptors/component.rs","src/descriptors/component_type_id.rs"],[("const FNV-1a","src/fnv1a.rs"),("default identifier","src/descriptors/component.rs")],
 [],["fnv1a::*","Component::ID"])

prop("C20","Deriving Component equals implementing it by hand",
 "Deriving the component trait on any struct, enum or union, with any visibility, fields, attributes, generics, const generics or where clauses that meet the trait's bounds, yields a component whose name is the type's identifier and whose identifier and descriptor are the defaults. A derived component behaves in a registry exactly like a hand-written one.",
 ["programs","inputs"],"all admissible type definitions",
 "The derive crate has no tests.",
 ["shard_ecs_derive/src/lib.rs"],[("generated impl","shard_ecs_derive/src/lib.rs")],
 [],["derived Component::NAME / ID / DESCRIPTOR, derived types used in a Registry"])

prop("C21","Refused operations change nothing and hand their input back",
 "An operation that is refused - dead handle, component already present or absent, last or fifteenth component, mismatching or malformed group - reports it through its return value without panicking, gives back the very component values passed in, unharmed, and leaves every entity, handle, value and iteration result exactly as before.",
 ["histories","inputs"],"all refusal reasons at every point of every history",
 "Tests check a few refusals for their return value only, never that the state and the returned input are unchanged.",
 [REG,AD,AR,ER],[("early returns before mutation",REG)],
 [],["Err/None/false results of all Registry methods"])

prop("C22","Mutable access writes through to that component and nowhere else",
 "A value written through mutable access - single component, group, matching, filtered or exact mutable iteration - is what every later read of that component of that entity returns, through any access path and after any later move of the entity. No other component of that entity and no component of any other entity changes.",
 ["histories","inputs"],"all histories mixing writes through every mutable access path with structural changes, for all groups and orders",
 "Tests only compare mutable references with defaults; nothing is ever written through them.",
 [REG,DA,CG,IT+"archetype_iter_mut.rs",IT+"filter_archetype_iter_mut.rs"],[("mutable column views",DA),("tuple position mapping",CG)],
 [],["Registry::get_component_mut, get_components_mut, iter_*_mut"])

prop("C23","Presence queries agree with every form of access",
 "For every handle and every component or group, reporting presence is true exactly when the handle is live and the entity has all the named components; and presence holds exactly when reading, mutable reading and the matching iterations find the entity for that component or group.",
 ["histories","inputs"],"all handles (live, dead, foreign) and all components and groups in every reachable state",
 "Tests query presence for one entity with two components.",
 [REG,AD],[("membership test",AD),("subset test",AD)],
 [],["Registry::has_component(s)","Registry::get_component(s)(_mut)"])

prop("C24","Entity enumeration lists each live entity exactly once",
 "Enumerating the entities of a registry yields the handle of every live entity exactly once and nothing else, and an exhausted enumeration stays exhausted. This holds however it is consumed (singly, skipping, counting or as a whole), and its size hint is never false. Every handle it yields is accepted by all other operations, and it agrees with the handles delivered by component iteration.",
 ["histories"],"all histories of creation, destruction and component changes, with any pattern of free slots and slot versions",
 "One test checks that enumerated handles are among those created, for 32 entities with no destruction; completeness and uniqueness are never checked.",
 ["src/entity_registry/iterator.rs",ER,REG],[("slot scan with validity test","src/entity_registry/iterator.rs")],
 [],["Registry::iter_entities"])

prop("C25","Removing an entity by group needs an exact match",
 "Removing an entity by group succeeds exactly when the handle is live and the entity's component set equals the group's set, in whatever order the group names it; it then returns that entity's current values, each in its own position, and the handle is dead. Otherwise it returns nothing and the entity and all others are untouched.",
 ["histories","inputs"],"all entities and all groups: equal sets in any order, subsets, supersets, overlapping and disjoint sets, dead handles",
 "One test removes one entity with its exact two components; mismatching groups are never tried.",
 [REG,DA],[("swap-remove",DA),("exact-match check",REG)],
 [],["Registry::remove_entity"])

prop("C26","The order of components in a group never matters",
 "Creating, reading, writing, iterating or removing with a group gives every component its own value whatever the order in which the group lists its members, for groups of every size from 1 to 14 and any relation between listing order and identifier order. Entities created with differently ordered groups of the same components are of the same set.",
 ["inputs","histories"],"all permutations of all groups of 1..14 components",
 "Tests use a few orders of two and three components of identical layout.",
 [CG,CGD,DA],[("sort mappings",CGD),("sorted pointer access",CG)],
 [("sort mapping","position of each tuple member in the sorted set",CGD)],["all group-taking Registry methods"])

prop("C27","Memory stays in proportion to the population",
 "The memory a registry holds is at all times bounded by a small constant multiple of what the largest population it ever had needs, counted per component set, plus a fixed amount per component set it has seen. Room left by destroyed, removed or moved entities, and the slots of dead handles, is used again before more is requested, however long the registry lives and however many operations are refused.",
 ["histories"],"all histories of creation, destruction and component changes of any length, in particular long ones with a small population",
 "Tests create and destroy a few dozen entities once and never look at memory.",
 [DA,ER,REG,"src/archetype/mod.rs"],[("doubling growth of full storages only",DA),("free list of entity slots",ER),("swap-removal of rows",DA)],
 [("capacity","rows allocated per component set",DA),("free list","slots of dead entities",ER)],["counting global allocator","indices of the handles issued"])

prop("C28","Storage work is amortised over the operations that need it",
 "However a registry is used, the bytes it requests from the allocator over its whole life are bounded by a small constant multiple of what its largest population needs plus a small constant per operation; in particular populations that hover around any size, and entities that move back and forth between component sets, never make storages be reallocated again and again, and growing to n entities copies each row a bounded number of times on average.",
 ["histories"],"all histories, in particular growth to hundreds of thousands of entities and populations that hover around the sizes at which storages are full or half full",
 "Tests never count requests, and their populations are too small to tell constant from linear work.",
 [DA,ER,REG,"src/archetype/mod.rs"],[("doubling growth",DA),("storage that is kept when entities leave",DA)],
 [("capacity","rows allocated per component set",DA)],["counting global allocator"])

prop("C29","Equal histories give equal registries",
 "What a registry returns and shows - handles issued, values handed back, the order in which entities are enumerated and iterations yield rows - is a function of the changes made to it and of nothing else: neither of reads, refused operations, iterations abandoned half way or mutable access that writes nothing, nor of other registries, threads, the heap's layout or the registry's own place in memory.",
 ["histories","inputs"],"all histories, replayed on a second registry with arbitrary disturbances in between",
 "Tests run one history once, and compare neither order nor handles between runs.",
 [REG,ER,"src/archetype_registry/mod.rs",DA,"src/archetype_registry/iterators/archetype_iter.rs"],[("free list",ER),("sorted mappings","src/archetype_registry/mod.rs"),("swap-removal of rows",DA)],
 [("row order","order of the entities of a component set",DA),("free list order","slots of dead entities",ER)],["all Registry methods, on twin registries"])

prop("C30","Work on one entity does not grow with the world",
 "The steps that creating, destroying, moving, reading, writing or querying one entity takes, averaged over many such operations, do not grow in proportion to how many entities there are, have been, or share its component set; reads, queries, destruction and refusals do not grow in proportion to the number of component sets either. An iteration takes no steps for entities of sets which do not match or which the filter excludes.",
 ["histories","inputs"],"all worlds up to the capacity, all choices of entities (first, last, any), living and dead",
 "Tests hold a handful of entities and measure nothing; a scan of all rows or slots passes every one of them.",
 [REG,ER,DA,"src/archetype_registry/mod.rs"],[("entity entry lookup by slot",ER),("free list",ER),("swap-removal and repair of the moved entity's record",REG)],
 [("population","entities living, dead, and in the set concerned",ER)],["instruction counts of the executed code"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
