
TECH = 'deductive function contracts over a representation invariant (VCs from LLVM IR of the headers, z3)'
TBL15, TBL16 = H + 'group15_flat_table.hpp', H + 'group16_flat_table.hpp'
M15, M16 = H + 'group15_flat_map.hpp', H + 'group16_flat_map.hpp'


def both(n, a, b=None):
    return [(n + ' (group15)', TBL15 + ' ' + a), (n + ' (group16)', TBL16 + ' ' + (b or a))]


prop('M01', 'Lookup finds exactly the elements that are in the map',
     'For group15_flat_map and group16_flat_map: at every point of every history of public operations, find, contains, count and at succeed for a key exactly when the key '
     'has been inserted and not erased since, for the const and the non-const overloads alike. They yield the element stored for that very key, at throws for an absent key, '
     'and a lookup changes nothing and always terminates. Hash collisions, full groups, overflow marks left by erased elements and a probe path that wraps around '
     'the end of the table make no difference.',
     ['inputs', 'histories'], 'all keys, all hash functions, all table sizes and contents reachable by any history',
     'which groups are full, marked or wrapped depends on the whole history and on the hash values of all keys; tests sample a few benign key sets',
     MAPS + GRP, mech(*(both('find / find_index', 'find_impl, find_index, find_first_empty...') + [('group operations', H + 'flat_map_group15.hpp'), ('group operations', H + 'flat_map_group16.hpp')])),
     claim=dict(technique=TECH, level='proof', note='find, const find, contains, count, at and const at of both maps are proved against the representation invariant for arbitrary table size, contents and hash function (u64 keys); '
                'the invariant is re-established by the operations under M02 and M03; other element types and long histories: bounded differential run, labelled bounded'))
prop('M02', 'Insertion adds exactly one element and never disturbs the others',
     'For group15_flat_map and group16_flat_map: emplace, try_emplace, insert (copy and move), insert_or_assign and operator[] leave the map holding the key. If the key was absent it is '
     'added with the given value (operator[]: a value-initialised one), if it was present no element is added and its value stays - except that insert_or_assign replaces it. The returned '
     'flag says whether an element was added and the returned iterator or reference designates the element of that key. Every other element keeps its key and value, also when the '
     'insertion makes the table grow, and an insertion that fails to allocate leaves the map as it was. Arguments passed as lvalues are not modified.',
     ['inputs', 'histories'], 'all keys and values, all hash functions, all table sizes and contents reachable by any history',
     'the effect on the other elements depends on the whole table content and on the growth point; tests only count',
     MAPS + GRP, mech(*both('find_or_insert / insert_unique', 'find_or_insert, emplace_impl, try_emplace_impl, insert_impl')),
     claim=dict(technique=TECH, level='proof', note='each insertion entry point of both maps proved for arbitrary table size, contents and hash function (u64 keys): result, view of the whole map, representation invariant, termination; '
                'the growth step is used through the contract of rehash_impl, which M04 proves; other element types and long histories: bounded differential run, labelled bounded'))
prop('M03', 'Erasure removes exactly the requested element',
     'For group15_flat_map and group16_flat_map: erase(key) removes the element of that key if there is one and returns the number of removed elements; erase(iterator) removes exactly the element designated; '
     'erase over a range and std::erase_if remove exactly the designated elements. All other elements keep their key, value and place; afterwards the key is absent, '
     'the freed position can be used again, and erasure never fails.',
     ['inputs', 'histories'], 'all keys, all hash functions, all table sizes and contents reachable by any history',
     'clearing the wrong mark or bit is only visible for keys whose probe path crosses the affected group',
     MAPS + GRP, mech(*both('find_and_erase / erase_slot', 'find_and_erase, erase_slot, erase')),
     claim=dict(technique=TECH, level='proof', note='erase(key) and erase(iterator) of both maps proved for arbitrary table size, contents and hash function (u64 keys); erase(range), erase_if, other element types and long histories: bounded differential run, labelled bounded'))
prop('M04', 'Rehashing keeps every element and delivers the requested room',
     'For group15_flat_map and group16_flat_map: rehash, reserve and shrink_to_fit (and the growth step of insertions) change neither the set of keys, nor any value, nor size(), for every table content '
     'and every hash function. After rehash(n) there are at least n buckets and room for all elements; after reserve(n) the load limit is at least n, so a map that got its table from it takes n elements without '
     'another rehash; shrink_to_fit leaves the smallest suitable capacity. Arrays that are no longer used are freed, and an operation that fails to allocate leaves the map unchanged and leaks nothing.',
     ['inputs', 'histories'], 'all table sizes and contents, all hash functions, all requested capacities up to 2^50, failure of each allocation',
     'which elements are lost depends on the target group occupancy for the particular hash values; tests rehash benign key sets, and never fail an allocation',
     MAPS + GRP, mech(*both('rehash / reserve / shrink_to_fit', 'rehash_impl, create_slots, insert_unique_and_no_grow, reserve, rehash, shrink_to_fit, destroy_data')),
     claim=dict(technique=TECH, level='proof', note='rehash_impl<true/false> of both maps proved against its contract (loop invariants over the new table, allocation failure at each allocation), and rehash, reserve, shrink_to_fit proved over that contract '
                '(u64 keys, arbitrary hash); other element types and long histories: bounded differential run, labelled bounded'))
prop('M05', 'Iteration visits every element exactly once',
     'For group15_flat_map and group16_flat_map: walking from begin() to end() with ++ (prefix or postfix, const or non-const) visits each element exactly once and ends, for every table content. begin() is at the first element, or equal to end() '
     'if there is none; ++ goes to the next element in table order and skips none; dereferencing yields the element at the position; iterators compare equal exactly if they are at the same position; an iterator obtained from find() '
     'continues the same walk from its element. Walking changes nothing.',
     ['inputs', 'histories'], 'all table sizes and contents',
     'skipping or repeating needs particular gaps between used positions at group boundaries, or a used last group',
     ['src/jstd/hashmap/flat_map_iterator.hpp', 'src/jstd/hashmap/flat_map_iterator15.hpp'] + MAPS + GRP,
     mech(*(both('begin / end / find_first_used_index', 'begin, end, find_first_used_index') + [('iterator (group15)', H + 'flat_map_iterator15.hpp'), ('iterator (group16)', H + 'flat_map_iterator.hpp')])),
     claim=dict(technique=TECH, level='proof', note='begin, end, ++, *, ==, != and find() of both iterator classes, const and non-const, proved for arbitrary table size and contents with loop invariants over all positions; "exactly once" follows by induction over positions in table order; '
                'other element types and long histories: bounded differential run, labelled bounded'))
prop('M07', 'Copying, moving, swapping and clearing keep exactly the right contents',
     'For group15_flat_map and group16_flat_map: a copy (copy constructor, copy assignment) holds exactly the keys and values of its source, shares no storage with it and leaves the source unchanged. '
     'A move (move constructor, move assignment) transfers all elements without copying and leaves the source an empty, usable map. swap exchanges the complete contents and nothing else. clear leaves a usable empty map. '
     'A constructed map is empty, with the requested room. Self-assignment and self-swap change nothing. Whatever storage a target held before is freed exactly once, destruction frees everything, '
     'and a copy that fails to allocate leaks nothing and leaves the target as it was.',
     ['inputs', 'histories'], 'all pairs of tables (with and without arrays, of equal and of different capacity) in any reachable state, failure of each allocation',
     'the outcome depends on both tables\' state, capacity and load limit; tests only copy and move one small map',
     MAPS + GRP, mech(*both('copy / move / swap / clear', 'copy constructor, move constructor, operator=, swap, swap_content, clear, clear_data, destroy, create_slots')),
     claim=dict(technique=TECH, level='proof', note='constructors, destructor, copy/move construction and assignment (distinct and self), swap and clear of both maps proved on the real code: result contents, representation invariant of both tables, '
                'freed and leaked storage, allocation failure (u64 keys, arbitrary hash). The element-by-element copy of group15 into another capacity is proved in the thorough tier only (8 minutes of solver time); '
                'other element types and long histories: bounded differential run, labelled bounded'))
prop('M06', 'Size, capacity and load factor stay consistent',
     'For group15_flat_map and group16_flat_map: size() is always the number of elements, empty() says whether it is zero, capacity() and bucket_count() are the number of slots (0 while there are no arrays) and never '
     'less than size(), load_factor() is size() / capacity(). Insertions and erasures change size by exactly the number of elements added or removed, also when an allocation fails. max_load_factor(f) clamps f to '
     '[0.5, 0.875], keeps it in 256ths and keeps all elements; max_load_factor() returns the value in force. Adding an element to a map within its load limit (capacity * max_load_factor, or all slots of the smallest table) leaves it within '
     'its load limit (one more is allowed right after leaving the smallest table), so every table keeps empty slots, and every operation terminates after any history of insertions and erasures.',
     ['inputs', 'histories'], 'all table sizes and contents, all hash functions, all float arguments except NaN',
     'the threshold drifts with each erasure; running out of empty slots or missing a growth point shows only after long histories with particular collisions',
     MAPS, mech(*both('thresholds', 'slot_threshold_, calc_slot_threshold, max_load_factor, grow_if_necessary, erase_slot, find_or_insert, size, capacity, load_factor')),
     claim=dict(technique=TECH, level='proof', note='getters, max_load_factor, every insertion entry point and erase of both maps proved (u64 keys, arbitrary hash, all floats except NaN; growth through the contract of rehash_impl, which M04 proves); '
                'after an allocation failure in max_load_factor only the slot limit is proved; long histories: bounded differential run, labelled bounded'))
prop('M08', 'Elements are constructed and destroyed exactly once, in live memory',
     'For group15_flat_map and group16_flat_map with elements that have constructors and a destructor of their own: at every moment exactly the slots in use hold a live element. An element is only constructed in '
     'a free slot, only a live element is read, assigned, moved from or destroyed, erasing or clearing destroys exactly the erased elements, growing and rehashing moves every element and destroys the moved-from original, '
     'and no array is freed while an element in it is alive - so after destruction of the map every element ever constructed has been destroyed exactly once and all memory is freed exactly once. Temporaries an '
     'operation makes are destroyed by it. No operation reads or writes outside the arrays of its map, or after they are freed. This also holds when an allocation fails.',
     ['inputs', 'histories'], 'all table sizes and contents, all hash functions, failure of each allocation',
     'a skipped or doubled destructor call shows only for the group layouts concerned, and only with counted elements; the tests count none',
     MAPS, mech(*both('construction and destruction of elements', 'destroy_data, destroy_slots, clear_data, erase_slot, rehash_impl, transfer, find_or_insert, create_slots')),
     claim=dict(technique=TECH, level='proof', note='every insertion entry point, erase, clear, destructor, rehash_impl, rehash/reserve/shrink_to_fit, move, swap and assignment of both maps proved for a mapped type with external constructors, '
                'assignment and destructor (ghost state: which slots hold a live element; keys u64, arbitrary hash; element operations do not throw); the element-by-element copy of group15 is proved in the thorough tier only; '
                'erase(range), erase_if, std::string elements, tracked keys and long histories: bounded AddressSanitizer run with counted elements, labelled bounded'))
