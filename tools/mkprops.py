#!/usr/bin/env python3
"""writes properties.jsonl (the source of the property list)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=hook)))

D='code/dynamix/domain.cpp'; T='code/dynamix/type.cpp'; TH='code/dynamix/type.hpp'; O='code/dynamix/object.cpp'; OH='code/dynamix/object.hpp'
OM='code/dynamix/object_mutation.cpp'; OMH='code/dynamix/object_mutation.hpp'; SV='code/dnmx/bits/sv.h'; MI='code/dnmx/mixin_info.h'

p('C01','String views compare, search and convert exactly like byte strings',
  'Comparing two string views gives the lexicographic order of their unsigned bytes (shorter prefix first), equality holds exactly when length and bytes match, and this is independent of where the bytes are stored, including null, empty, overlapping and shared-begin views. Prefix test, first/last character search, length, emptiness and conversions from/to C strings and std::string_view agree with the same operations on the byte sequence, and no byte outside of the views is read.',
  ['inputs'],'every pair of well-formed views: all lengths, contents and overlaps',
  'x-sv.cpp compares a handful of short literals; the order is a statement about all byte strings and all placements, and names are the keys of every lookup and of the canonical order.',
  [SV],[('dnmx_sv_cmp/dnmx_sv_eq/find/starts_with',SV)])
p('C02','The canonical mixin order is a strict total order with the documented keys',
  'The canonical order compares mixins by order priority (signed), then by name, then by id, then by address; it is irreflexive, asymmetric, transitive and total on distinct mixins, for every combination of priorities, names and ids.',
  ['inputs'],'all triples of mixin infos with arbitrary priority, name, id',
  'Tests sort a few mixins with distinct small priorities; an order that is not strict-weak only shows for particular triples (extreme priorities, equal names), and then corrupts std::sort and type identity.',
  [MI,'code/dynamix/mixin_info.hpp'],[('dnmx_mixin_canonical_order',MI),('canonical_mixin_order','code/dynamix/mixin_info.hpp')])
p('C03','External mixin buffers have room for the object pointer and the aligned mixin',
  'After setting size s and a power-of-two (or smaller than pointer size) alignment a on a mixin info, its external buffer alignment/offset is max(a, pointer size), which is where the mixin goes, and the buffer size is exactly that offset plus s, so the mixin is aligned, lies entirely inside of the buffer and is preceded by a whole pointer. Rounding up to a multiple yields the least multiple not below the argument.',
  ['inputs'],'all sizes and alignments for which the sums do not overflow 32 bits',
  'Tests check four or five size/alignment pairs; off-by-one and small/large alignment cases are inputs that are not sampled.',
  [MI,'code/dynamix/alloc_util.hpp'],[('dnmx_set_mixin_info_size_and_alignment',MI),('util::next_multiple','code/dynamix/alloc_util.hpp')])
p('C04','The object buffer layout of every type is aligned, disjoint and in bounds',
  'For every type a domain creates: each internal mixin has a non-zero offset that is a multiple of its alignment, with at least a pointer of free space before it, behind the per-mixin table and behind the previous internal mixin; it ends within the object buffer size; external mixins have offset zero and take no space. The buffer alignment is the maximum of the pointer size and the alignments of the internal mixins, and the type\'s own storage fits in the size the domain allocated and later frees.',
  ['inputs','configurations'],'all mixin lists, sizes, power-of-two alignments, internal/external combinations',
  'Tests create types from a dozen fixed mixins; overlap needs a specific combination of sizes, alignments and order.',
  [D],[('domain::impl::create_type layout loop',D)],[('object_buffer_size/alignment, mixin_offsets','layout of the unified object buffer',TH)])
p('C05','Mixin index queries of a type are exact',
  'For every type, index-of by id, by info or by name is the position of that mixin in the type\'s mixin list and the invalid index exactly when the type has no such mixin (including ids never registered, the invalid id and ids beyond the table); has/lacks agree with it. By name, the first mixin with an equal name wins, and the empty type has nothing.',
  ['inputs','histories'],'all types and all ids/names',
  'Tests query a few ids of a few types; a wrong bound or stale slot only shows for particular ids and sparse tables.',
  [TH,T,D,'code/dnmx/basic_type.h'],[('type::index_of/has/lacks',TH),('sparse_mixin_indices construction',D)],[('sparse_mixin_indices','position per mixin id, invalid when absent',TH)])
p('C06','A type\'s feature table holds exactly its mixins\' features in bid/priority order',
  'For every type and feature, the feature table entry lists exactly the features provided by the type\'s mixins, each once, with the providing mixin\'s index and payload, ordered by descending bid, then ascending priority, then last mixin first, and the top-bid range covers exactly the entries sharing the highest bid; features nobody provides have no entry and strong-implements queries by info, id and name agree with that. A type with two providers of equal bid and priority of a feature that forbids clashes is refused.',
  ['inputs','configurations'],'all mixin lists and all feature/bid/priority assignments',
  'Tests check a few fixed feature sets; ordering, clash detection and range ends depend on every combination of bids and priorities (including extreme values).',
  [D,T,'code/dnmx/basic_type.h'],[('ftable_build_helper',D),('type::implements_strong',T)],[('ftable','per feature payload ranges','code/dnmx/basic_type.h')])
p('C07','Next implementer and next bidder set are exactly the following payloads',
  'For a feature and a mixin of a type that provides it, find_next_implementer returns the payload immediately following that mixin\'s in the feature\'s order, or null when it is the last; find_next_bidder_set returns exactly the payloads with the next lower bid, or nothing when the mixin bids in the last set. For a feature the type lacks or a mixin that is not in the type or does not provide the feature, both return nothing.',
  ['inputs'],'all types, features and mixins',
  'Tests check three or four chains; positions at ends, repeated bids and absent mixins are inputs not sampled.',
  [T,'code/dynamix/msg/next_impl.hpp'],[('type::find_next_implementer/find_next_bidder_set',T),('call_next_*','code/dynamix/msg/next_impl.hpp')])
p('C08','Message calls reach exactly the right mixins in the right order',
  'A unicast call invokes only the first (top) implementer of the message; a multicast call invokes every top-bid implementer exactly once, last in table order first, and returns the result of the first in table order; each is passed its own mixin of that object and the given arguments. If the type has no implementer the default implementation is called once with the object, and with no default the call throws and invokes nothing; combinator calls feed results in multicast order and stop as soon as the combinator says so; next-implementer/bidder calls reach what the next queries return.',
  ['inputs','configurations'],'all types, feature tables, arguments',
  'Tests call a handful of messages; the obligation is about every table shape (number of top bidders, default, none).',
  ['code/dynamix/msg/msg_caller.hpp','code/dynamix/msg/next_impl.hpp'],[('msg_caller::call_unicast/call_multicast/call_with_v1_combinator','code/dynamix/msg/msg_caller.hpp')])
p('C09','Equal mixin lists give the same type and cached queries never change the answer',
  'Within a domain, two type requests whose mixin lists are the same after mutation rules return the same type object and different lists return different types; with canonicalization the order of the request does not matter and the type\'s mixins are in canonical order, without it the order is kept. A type query answered from the cache is the answer that would be computed afresh, through any history of queries, rule additions and removals, registrations and collections.',
  ['histories','inputs'],'all histories of domain operations',
  'Tests check a few request orders; cache incoherence needs a particular interleaving of queries and rule/mixin changes.',
  [D],[('domain::impl::get_type/create_type',D),('add/remove_mutation_rule invalidation',D)],[('type_queries','request -> type cache',D),('types','existing types ordered by mixins',D)])
p('C10','Types hold only registered, own, unique mixins; bad requests change nothing',
  'Every type a domain returns contains only mixins registered in that domain and none twice. A request containing (after rules) an unregistered, foreign or duplicate mixin, a clash, a mutation started for another domain, or a failing rule throws and leaves the set of types, stored queries and registrations as they were.',
  ['inputs','histories'],'all requests in all domain states',
  'Tests try one bad request of each kind; positions and combinations of offending mixins are not covered.',
  [D],[('create_type validity checks',D),('get_type foreign check',D)])
p('C11','Mutation rules are applied in order, to a fixpoint, and refcounted',
  'Rules run ordered by (priority, name, address), first after dropping all dependency mixins from the request and then repeatedly until a pass gives the list it started from (the first pass: until it gives the request as it was made); if that takes more passes than the library\'s limit, or a rule reports an error, the request fails with an exception. A rule added n times stays active until removed n times, and is active exactly while its count is positive; dependency mixins appear in a type only if rules add them.',
  ['inputs','histories'],'all rule sets, orders of adding/removing, and requests',
  'Tests have a few fixed rule sets; the order, refcount and fixpoint claims are over all of them.',
  [D,'code/dynamix/common_mutation_rules.hpp','code/dynamix/mixin_info_data.cpp'],[('apply_mutation_rules_l, rule_compare, add/remove_mutation_rule',D)],[('mutation_rules','sorted rules with refcounts',D)])
p('C12','Registration gives the least free id and bad registrations change nothing',
  'Registering a mixin or feature gives it the least id not in use in the domain and makes it the element of that id; all registered elements have distinct ids equal to their slot. Registering an already registered element, an empty or duplicate name (when unique names are enforced) or a mixin of another domain throws and changes neither the element nor the registry; unregistering frees exactly that slot, invalidates the id, and refuses elements that are not the domain\'s own without changing anything.',
  ['histories','inputs'],'all histories of registrations and unregistrations',
  'The fuzz tests sample histories under NDEBUG-style asserts of the library itself; the least-free-id and no-change-on-failure claims are over all histories and names.',
  [D],[('basic_register_l/basic_unregister_l/register_mixin/unregister_mixin',D)],[('sparse_mixins/sparse_features','elements by id',D)])
p('C13','Lookups find exactly what is registered, for mixins, features and type classes',
  'Lookup by id returns the registered element with that id or null; lookup by name returns a registered element with that name (the one with the least id) or null, never an unregistered one. Type classes with empty names, no match function or a duplicate name are refused, registered ones are found by name until unregistered, and is_of by name applies the class\'s predicate to the type and throws for unknown names.',
  ['histories','inputs'],'all registry states and keys',
  'Tests look up a few names; slots freed in the middle, reuse and boundary ids are state/input dependent.',
  [D,T],[('basic_get_by_id_l/basic_get_by_name_l, register_type_class',D)],[('sparse_type_classes','registered type classes',D)])
p('C14','Unregistering a mixin and collecting garbage remove exactly the affected types',
  'Unregistering a mixin removes every type that contains it and every stored query that mentions it or leads to such a type, and nothing else. Garbage collection removes exactly the types with no living objects and the stored queries that lead to them; types in use stay valid, stored queries never refer to removed types, and the object count of a type is the number of its living objects.',
  ['histories'],'all histories of types, objects, unregistrations and collections',
  'Tests collect in a few fixed states; dangling cached queries need a particular history.',
  [D,T],[('unregister_mixin, garbage_collect_types',D),('allocate/deallocate_object_buffer counter',T)])
p('C15','Type mutation edits the mixin list exactly as specified',
  'add appends; add-if-lacking appends only when absent; remove erases the first occurrence only and reports whether it did; to_back moves the first occurrence to the end keeping the rest in order and throws when absent; dedup keeps the last occurrence of each in order; by-name variants act on the first mixin with that name, and unknown names throw or return null as specified without changing the list. Membership and feature queries answer exactly by the current list.',
  ['inputs'],'all mixin lists and arguments',
  'Tests use lists of two to five mixins; the claims are about all positions and duplicates.',
  ['code/dynamix/type_mutation.cpp','code/dynamix/type_mutation.hpp'],[('type_mutation members','code/dynamix/type_mutation.cpp')])
p('C16','Every mixin is constructed and destroyed exactly once and memory is balanced',
  'Changing an object\'s type constructs each new mixin exactly once in target order, keeps common external mixins in place, moves common internal ones into the new buffer exactly once and destroys the moved-from original, and destroys each dropped mixin once; each buffer is obtained once from the mixin\'s allocator if it has one, else the object\'s, and returned once to the same allocator with the same size and alignment. Destroying or clearing an object destroys each mixin once and frees everything, so over an object\'s lifetime constructions equal destructions and allocations equal deallocations.',
  ['histories','inputs'],'all sequences of type changes over all types',
  'Tests follow particular sequences; leaks and double destruction show only for particular combinations of internal/external/common mixins.',
  [OM,OMH,O,T],[('object_mutation::allocate_mixin_data/finalize/update_next_mixin',OM),('object::clear_mixin_data',O)])
p('C17','A failed or unwound mutation leaves the object as it was',
  'If a mixin constructor fails (error or exception), an init function is missing, an allocation fails or an exception passes through a mutation in progress, the object keeps its type, its mixins (same addresses, not destroyed, not moved) and mixins constructed so far are destroyed exactly once in reverse order, all new memory is returned, and the error reaches the caller.',
  ['fault_sequences','inputs'],'every failing step of every mutation between all types',
  'Tests inject failures at a few steps; the claim is over every step of every pair of types.',
  [OM,OMH],[('object_mutation::~object_mutation/rollback/destroy_new_mixins/deallocate_mixin_data',OM)])
p('C18','Object accessors and object_of agree for every mixin',
  'For every object, getting a mixin by id, info, name or position gives the same pointer, which is aligned for the mixin, and null exactly when the type lacks it (or the position is out of range); object_of any of its mixins is that object, also after type changes, moves and copies. Freshly created and cleared objects are of the domain\'s empty type and have no mixins.',
  ['histories','inputs'],'all objects after all histories',
  'Tests check a few mixins after a few operations; back-pointers have to be rewritten on every path that moves mixins.',
  [O,OH,OM,'code/dynamix/object_of.hpp'],[('object::get/safe_get_mixin/get_at',O),('set_object','code/dnmx/object_mixin_data.h')])
p('C19','Copying and matching assignment act on exactly the specified mixins',
  'copy() makes an object of the same type with each mixin copy-constructed from the source; copy_from gives the target the source\'s type, copy-assigning common mixins and copy-constructing the others from the corresponding source mixins; the matching variants copy- or move-assign exactly the mixins both objects have and keep the target\'s type, move falling back to destroy and move-construct only when allowed. If some needed function is missing the operation throws before touching anything, and the source of a copy is never changed.',
  ['inputs','histories'],'all pairs of objects',
  'Tests copy a few objects; index mapping between different types and missing functions are combinatorial.',
  [O],[('object::copy/copy_from/copy_matching_from/move_matching_from',O)])
p('C20','Moves transfer everything and sealed objects cannot be mutated',
  'Moving an object transfers its type, mixins (same addresses), allocator and sealed status to the target, redirects the back-pointers, and leaves the source empty, unsealed and reusable; move assignment destroys the target\'s mixins first, is a no-op on itself, and refuses different allocators or a sealed target without changes. On a sealed object every operation that would change its type (clear, reset, mutate, copy-from, move-assign to it) throws and changes nothing, until it is moved from or destroyed.',
  ['histories','inputs'],'all objects, operations and histories',
  'Tests try a few operations on one sealed object; the claim is over all mutating operations and states.',
  [O,OM],[('object::usurp/operator=/clear/reset_type',O),('object_mutation sealed check',OM)])
p('C21','Object and type comparison follow the documented order',
  'Type comparison is 0 only for the same type, otherwise it orders by domain and then lexicographically by canonical mixin order, antisymmetrically and transitively. Object equality is true for the same object, false for different types, and otherwise holds exactly when every mixin is equal by its equals function (or by compare when there is no equals); compare orders by type and then by the first mixin comparing non-zero, and throws when a needed compare function is missing.',
  ['inputs'],'all pairs (triples) of types and objects',
  'Tests compare a few pairs; order laws quantify over triples.',
  [O,T],[('object::equals/compare',O),('type::compare',T)])
p('C22','The C API does what the C++ API does and reports errors by value',
  'Each C function has the effect and result of the corresponding C++ operation on the same handles; whenever that operation throws an exception derived from std::exception, the C function that can report it returns its error value (non-zero, null or false) instead of letting the exception escape, with the state left as the C++ operation leaves it. C mutations apply the add/remove/to-back operations in order and use the override of exactly the named mixin; the mutation handle passed to a type request is always consumed.',
  ['inputs','histories'],'all C calls in all states',
  'C tests cover the straight path; failure paths through each C function and parity are not enumerated.',
  ['code/dynamix/domain-c.cpp','code/dynamix/object-c.cpp','code/dynamix/type-c.cpp','code/dynamix/type_mutation-c.cpp','code/dynamix/mutate-c.cpp','code/dynamix/mixin_allocator-c.cpp'],[('extern "C" wrappers','code/dynamix/*-c.cpp')])
p('C23','Common mixin functions act on exactly the mixin\'s bytes',
  'The common init, copy, move, destroy, compare and equality functions of plain-data mixins write or read exactly the mixin\'s size bytes: init zeroes them, copy duplicates the source without changing it, move also zeroes the source, compare and equality agree with comparison of the byte sequences; the noop functions touch nothing.',
  ['inputs'],'all sizes, contents and addresses',
  'Tests use one or two struct sizes; out-of-range writes and size handling are over all sizes.',
  ['code/dnmx/mixin_common_funcs.c','code/dnmx/mixin_common_funcs.h'],[('dnmx_mixin_common_*','code/dnmx/mixin_common_funcs.c')])
p('C24','Mixin info builders set exactly the requested attributes',
  'The mixin info builder sets size and alignment from the class, provides each life-cycle function exactly when the class supports the operation (and a real destructor when it is not trivial), stores names, payloads and rule infos so that they stay valid, and records every feature with the bid and priority given (first perks argument wins, default 0); perk literals, negation and combination give the stated values; adding a rule makes the mixin a dependency as documented. The domain settings builder sets exactly the named flag.',
  ['inputs','programs'],'all classes, names, perks and builder call sequences',
  'Tests build a few mixins; attribute combinations and growth of the stored arrays are not enumerated.',
  ['code/dynamix/mixin_info_data.hpp','code/dynamix/mixin_info_util.hpp','code/dynamix/mixin_info_data_literals.hpp','code/dynamix/domain_settings_builder.hpp'],[('mixin_info_data_builder','code/dynamix/mixin_info_data.hpp'),('common_init_mixin_info','code/dynamix/mixin_info_util.hpp')])
p('C25','Multicast combinators compute and, or, sum and mean of all results',
  'For every sequence of results, boolean_and is true exactly when all are true and stops at the first false, boolean_or is true exactly when some is true and stops at the first true, sum is the sum in order, and mean is that sum divided by the number of results announced; reset returns a combinator to its initial value.',
  ['inputs'],'all result sequences',
  'Tests feed two or three results; the claims are over sequences of any length.',
  ['v1compat/code/dynamix/v1compat/combinators.hpp'],[('combinators','v1compat/code/dynamix/v1compat/combinators.hpp')])
p('C26','Mixins constructed with arguments get exactly those arguments',
  'Constructing from an argument tuple (also through add<Mixin>(args...) and construct<Mixin>(args...)) builds one object in the given memory from exactly the tuple\'s elements, in order, preserving value category: references stay the same objects, rvalues are moved (out of the tuple exactly once) and never copied, lvalues are not moved from.',
  ['inputs','programs'],'all argument values; the argument shapes instantiated by the checks',
  'The unit test has three shapes; category preservation and order is over all values and mixes.',
  ['code/dynamix/bits/make_from_tuple.hpp','code/dynamix/object_mutate_ops.hpp'],[('impl::make_from_tuple','code/dynamix/bits/make_from_tuple.hpp')])
p('C27','The bundled memory resource and allocator honour size and alignment',
  'The fallback (no std::pmr) memory resource returns memory of at least the requested size aligned as requested or throws bad_alloc, and frees what it returned; the fallback allocator requests n times the element size with the element alignment from its resource and returns blocks to the same resource with the same values; allocators are equal exactly when they share the resource, and an allocator keeps its resource through copies and rebinds.',
  ['inputs'],'all sizes and power-of-two alignments',
  'The fallback is not even compiled in the tested configuration.',
  ['code/dynamix/compat/pmr/memory_resource.cpp','code/dynamix/compat/pmr/memory_resource.hpp','code/dynamix/compat/pmr/allocator.hpp'],[('default_resource','code/dynamix/compat/pmr/memory_resource.cpp'),('pmr::allocator','code/dynamix/compat/pmr/allocator.hpp')])
p('C28','Concurrent domain operations are race free and linearizable',
  'Registration, lookups, type requests and garbage collection on one domain may be called from several threads; they are free of data races and deadlocks and every call behaves as if it were executed atomically.',
  ['schedules'],'all interleavings',
  't-domain-mt runs one random schedule per run.',
  [D],[('data_mutex<element_registry>, data_mutex<type_registry>',D)])
p('C29','mutate() applies operations in order and uses each construct override once',
  'mutate(object, ops...) applies add/remove/to-back in argument order to the object\'s current mixin list, obtains the resulting type (after rules) and changes the object to it, constructing each new mixin by the override given for that mixin when there is one (whatever the order of the operations) and by default otherwise; overrides for mixins that are absent or already in the object are not called. Gradual mutation does the same once, at its end, unless cancelled; more than one override for a new mixin is an error that leaves the object unchanged.',
  ['inputs','histories'],'all objects, operation lists and orders',
  'Tests use two or three operations; ordering against canonical types and combinations with rules are not sampled.',
  ['code/dynamix/mutate.hpp','code/dynamix/mutate_to.hpp','code/dynamix/mutate_ops.hpp','code/dynamix/mutate_to_ops.hpp',OMH],[('mutate_to','code/dynamix/mutate_to.hpp'),('object_mutation::update_at',OMH)])
p('C30','The v1 compatibility rules edit the mixin list as documented',
  'Dependent-mixin rules add each listed mixin that is lacking exactly when the master is present, and refuse (the checked variant) listed mixins that are not dependencies; the mutually exclusive rule keeps only the last of its listed mixins and leaves the others and their order alone; mandatory, deprecated and substitute rules add, remove and replace exactly their mixin. Rule ids identify a rule until it is removed, and removal returns that rule and deactivates it.',
  ['inputs','histories'],'all mixin lists and rule configurations',
  'Tests use a few fixed objects; positions and multiplicities of the listed mixins are not enumerated.',
  ['v1compat/code/dynamix/v1compat/mutation_rules.cpp','v1compat/code/dynamix/v1compat/common_mutation_rules.hpp'],[('*_mixins::apply_to','v1compat/code/dynamix/v1compat/mutation_rules.cpp'),('add/remove_mutation_rule','v1compat/code/dynamix/v1compat/mutation_rules.cpp')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x, s)
    assert x['statement'].count('. ') <= 2, (x['id'], x['statement'].count('. '))
print(len(P))
