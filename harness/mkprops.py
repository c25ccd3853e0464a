import json
B="include/boost/circular_buffer/base.hpp"; S="include/boost/circular_buffer/space_optimized.hpp"; D="include/boost/circular_buffer/details.hpp"; G="include/boost/circular_buffer/debug.hpp"
T="The unit tests in test/common.ipp, base_test.cpp and space_optimized_test.cpp use a few fixed capacities and one hand-written sequence per method"
P=[]
def p(id,title,st,over,qt,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
p("C01","Push and pop act as a bounded sequence that overwrites the opposite end",
"After any history, pushing at an end makes the pushed value the element at that end and keeps all others in order; if the buffer was full, exactly the element at the opposite end is dropped and size stays equal to capacity, and with capacity zero nothing happens. Popping removes exactly the element at that end. This holds for copied, moved and default-valued pushes, and when the value pushed is a reference to an element of the same (capacity-preserving) buffer.",
["histories","inputs"],"All interleavings of pushes and pops at both ends, all capacities (including 0 and 1), fill levels and wrap positions, all element categories (scalar, copy-only, movable, move-only).",
T+"; the wrap position, fill level and element category they meet are a handful of the product.",
[B,S],[("push","circular_buffer::push_back_impl/push_front_impl"),("pop","circular_buffer::pop_back/pop_front"),("wrap","circular_buffer::increment/decrement")])
p("C02","Insertion at any position keeps order and drops only the documented elements",
"Inserting one value, n copies or a range at any position equals inserting into an unbounded sequence and then removing surplus elements from the front (forward insertion) or from the back (reverse insertion) until the size fits the capacity; surplus may include leading (forward) or trailing (reverse) new values, and inserting at the front of (respectively, reverse-inserting at the end of) a full buffer has no effect. The single-value forms return an iterator to the inserted element, or to the beginning (respectively end) when nothing was inserted.",
["histories","inputs"],"All reachable buffer states (capacity, size, wrap), all positions, all counts from 0 past the capacity, all ranges.",
T+"; insertions that straddle the wrap point with every mix of constructed and overwritten slots are not enumerated.",
[B],[("single insert","circular_buffer::insert_impl, insert_item, rinsert_impl"),("multi insert","circular_buffer::insert_n, rinsert_n"),("clipping","circular_buffer::insert/rinsert(pos, n, item), (pos, first, last)")])
p("C03","Erasure removes exactly the given elements and returns the right iterator",
"Erasing a position, a range, the first n, the last n or all elements removes exactly those elements, keeps the remaining ones in order, and leaves capacity unchanged, whichever side is shifted. Forward erasure returns an iterator to the element following the removed ones (end if none); reverse erasure returns an iterator to the element preceding them (beginning if none).",
["histories","inputs"],"All reachable states, all positions and ranges including empty and whole.",
T+"; they erase from a few fixed states.",
[B],[("erase","circular_buffer::erase, rerase"),("bulk erase","circular_buffer::erase_begin, erase_end, clear, destroy_content")])
p("C04","Construction, assignment, copy, move and swap give the documented content",
"Every constructor and assignment form yields exactly the documented elements in order and the documented capacity (a range longer than the given capacity keeps its last elements). Copies are equal to and independent of their source (copying a buffer onto itself changes nothing); a moved-from buffer is empty with zero capacity, its content and capacity now being the target's; swap exchanges contents and capacities.",
["histories","inputs"],"All constructor/assignment overloads, all source and target states (size, capacity, wrap, equal or different capacities), followed by arbitrary further use of both objects.",
T+"; source and target states are almost always linear, and few follow-up operations are made.",
[B,S],[("construct","circular_buffer constructors, initialize, initialize_buffer"),("assign","circular_buffer::operator=, assign, assign_n, reset"),("swap","circular_buffer::swap")])
p("C05","Changing capacity or size keeps exactly the documented elements",
"Setting a capacity below the size keeps the first elements (the reverse form keeps the last ones), any other capacity change keeps all of them in order, and the capacity becomes exactly the requested one. Resizing appends copies of the value at the end (the reverse form prepends at the beginning) or removes from that same end, growing the capacity exactly to the new size when it is larger; requesting more than the maximum size raises a length error and changes nothing.",
["histories","inputs"],"All reachable states, all requested capacities and sizes including 0, equal, off by one and above the maximum.",
T+" and check a few growth and shrink steps from fixed states.",
[B],[("capacity","circular_buffer::set_capacity, rset_capacity, reset, allocate"),("size","circular_buffer::resize, rresize")])
p("C06","All views of the content agree",
"At every point the sequence seen through forward and reverse iterators, indexing, checked access, first/last element access and the concatenation of the two contiguous array segments is the same, in const and non-const form alike, the segments lie inside the storage without overlap, and size, capacity, free space, emptiness and fullness agree with it. Checked access raises an out-of-range error exactly for indices not below the size, and writes made through any view are seen through all the others. A non-empty buffer is reported as linear exactly when its elements are contiguous in order.",
["histories","inputs"],"Every state reachable by any sequence of public operations.",
T+" and compare one accessor at a time in a few states.",
[B],[("indexing","circular_buffer::operator[], at, add"),("segments","circular_buffer::array_one, array_two, is_linearized"),("ends","circular_buffer::front, back, begin, end, rbegin, rend")])
p("C07","Iterators obey the random-access laws in every buffer state",
"For any positions i and j from beginning to end inclusive, advancing, retreating, differencing, comparing, indexing and dereferencing iterators agree with integer arithmetic on i and j, for mutable, constant and reverse iterators, for mixed mutable/constant operands, and after conversion, copy and assignment. In particular the end position is distinct from the beginning of a full buffer, and standard algorithms over the iterators give the same result as over a plain array.",
["histories","inputs"],"All states (empty, partial, full, wrapped at every offset), all pairs of positions.",
T+"; iterator arithmetic is exercised on few pairs and few wraps.",
[D,B],[("iterator arithmetic","cb_details::iterator::operator+=, -=, ++, --, linearize_pointer"),("mixed comparison","cb_details::iterator comparison templates")])
p("C08","Rotation and linearization permute or preserve the sequence exactly",
"Rotating to any position gives the same sequence as rotating an array to that position, whether or not the buffer is full. Linearizing never changes the sequence and afterwards all elements are contiguous in the first segment, the second segment is empty, the buffer is reported linear and the returned pointer is the first element (null when empty).",
["histories","inputs"],"All states (size, capacity, wrap offset), all rotation targets, all element categories.",
T+"; the in-place cycle of linearize depends on the relation of three lengths that tests sample a few times.",
[B],[("linearize","circular_buffer::linearize"),("rotate","circular_buffer::rotate")])
p("C09","Every element object is constructed and destroyed exactly once",
"At any moment the live element objects owned by a buffer are exactly its size many, one per occupied slot, and no operation reads, assigns to or destroys a slot that holds no object or constructs over a live one. After the buffer is destroyed no element object it created survives, on every path including those where an element operation throws.",
["histories","inputs","fault_sequences"],"All operation histories over all element categories.",
"Tests count instances in a few methods; lifetime errors in a specific wrap/fill combination do not change visible values and so pass unnoticed.",
[B,D],[("construct or assign","circular_buffer::construct_or_replace, is_uninitialized, replace"),("destroy","circular_buffer::destroy_item, destroy_content, destroy")])
p("C10","Allocator contract: all storage and elements go through the buffer's allocator",
"Every block obtained is returned exactly once, to an equal allocator, with the same element count; elements are created and (scalars excepted) destroyed through the allocator's own construct and destroy when it has them; nothing is read or written outside the block; temporary storage comes from the buffer's own allocator too. Copies use the source's allocator, moves and swaps carry the allocators along with the storage, and operations that change neither capacity nor whole content, as well as a capacity of zero, request no memory.",
["histories","configurations","fault_sequences"],"All operation histories, stateful and stateless allocators, allocators with and without construct/destroy, fancy pointers.",
"Tests use std::allocator and a few minimal allocators, none of which checks sizes or identities.",
[B,D],[("allocate","circular_buffer::allocate, deallocate, initialize_buffer"),("swap","circular_buffer::swap_allocator"),("construct","boost::allocator_construct calls in base.hpp and details.hpp")])
p("C11","Basic exception guarantee at every possible throw point",
"Whenever an element operation, an allocation or a source iterator throws at any point inside any operation or constructor, the exception propagates unchanged, nothing leaks, no object is destroyed twice, and the buffer stays usable, with size at most capacity and only elements that were in it before or were being inserted. Subsequent operations behave as on any buffer with that content.",
["fault_sequences","histories"],"Every throw point of every operation, from every reachable state.",
"Tests throw at one chosen point in a few operations and do not look at the intermediate slots.",
[B,D],[("rollback","catch blocks in insert_n, rinsert_n, insert_item, rinsert_impl, linearize, initialize*, assign_n"),("uninitialized algorithms","cb_details::uninitialized_copy, uninitialized_fill_n_with_alloc")])
p("C12","Strong and no-throw guarantees hold where documented",
"If changing the capacity (either form), copy assignment or checked access throws, the observable state and the element objects are unchanged. Popping, clearing, swapping, moving the container, destruction, rotating a full buffer, and all observers never invoke an operation that may throw, so they cannot fail; moving and swapping are declared non-throwing, so standard containers relocate buffers by moving them.",
["fault_sequences","histories"],"Every throw point in the strongly guaranteed operations, every state for the no-throw ones.",
"Tests do not enumerate throw points nor check that the state is bit-for-bit the same afterwards.",
[B,S],[("strong","circular_buffer::set_capacity, rset_capacity, operator=; circular_buffer_space_optimized::set_capacity, rset_capacity, operator="),("no-throw","circular_buffer::pop_*, clear, swap, move operations, rotate")])
p("C13","Element moves happen only where safe and never expose moved-from values",
"Elements whose move construction and assignment cannot throw are relocated by moves, never by copies, in single-value insertion, erasure, rotation, linearization and capacity changes, and move-only elements work there. Elements whose moves may throw but which can be copied are copied when shifted, so no element of the buffer is ever left in a moved-from state, even after an exception; an argument passed as a constant is never modified, and a value pushed or inserted as an rvalue is moved, not copied.",
["histories","inputs","fault_sequences"],"All histories over copy-only, nothrow-move, throwing-move and move-only element types.",
"Tests check moves of a few operations in one state each.",
[B,D],[("relocation","boost::move_if_noexcept uses in base.hpp"),("capacity change","cb_details::uninitialized_move_if_noexcept")])
p("C14","Iterators and references survive every operation documented to keep them",
"Elements not documented as invalidated by an operation keep their address and value, and iterators, pointers and references to them (and end iterators) obtained before the operation still designate the same element, with the right distance from the beginning, after it. In particular pushes invalidate at most the overwritten element, forward insertion and erasure keep everything before the position, reverse forms keep everything from (respectively after) the position on, and a swap keeps all elements in place.",
["histories","inputs"],"All operations from all states, all iterators held across them.",
"Tests check invalidation for a few positions; an extra relocation leaves values right and goes unnoticed.",
[B],[("in-place shifting","circular_buffer::insert_item, rinsert_impl, erase, rerase, insert_n, rinsert_n"),("iterators","cb_details::iterator::m_it")])
p("C15","Work done per operation stays within the documented complexity",
"Pushes, pops, element access, swap, container moves and rotation of a full buffer perform a constant number of element operations and no allocation, and iterator arithmetic takes constant time; insertion, erasure and their reverse forms work proportionally to the inserted or erased count plus the distance to the end (respectively the beginning); rotation of a non-full buffer proportionally to the shorter side; capacity changes to the number of kept elements. Linearizing an already linear buffer, and setting the capacity to its current value, do no element operation; clearing and destroying scalar buffers and bulk erasing scalars at either end are constant.",
["histories","inputs"],"All states and arguments, measured as counted element operations (not time).",
"Tests never count operations.",
[B],[("direction of shifting","circular_buffer::insert_item, rinsert_impl, erase, rerase"),("rotate","circular_buffer::rotate"),("scalar shortcuts","circular_buffer::erase_begin, erase_end, destroy_content")])
p("C16","The space-optimized buffer is observably equivalent to the plain one",
"For every history of operations both offer, the space-optimized buffer has the same content, size, capacity limit, return values and errors as a plain circular buffer given the same operations (with arguments that are not its own elements), regardless of its minimum capacity and of how its memory grows and shrinks, and its copies, moves and swaps carry the capacity limits along. A moved-from space-optimized buffer is empty with zero capacity.",
["histories","inputs"],"All histories, all capacity/minimum-capacity pairs.",
"space_optimized_test.cpp repeats the common tests and adds a few fixed cases; growth and shrink thresholds meet few of them.",
[S],[("growth","circular_buffer_space_optimized::check_low_capacity, ensure_reserve"),("shrink","circular_buffer_space_optimized::check_high_capacity, adjust_min_capacity"),("overrides","circular_buffer_space_optimized::insert, rinsert, assign, resize, swap")])
p("C17","The space-optimized buffer keeps its memory within the documented bounds",
"The allocated storage always holds at least the current elements, never exceeds the capacity limit, and does not fall below the minimum capacity through any removal, insertion or capacity change; constructors and assignments allocate exactly the documented amount. Copies, assignments, moves and swaps carry the minimum capacity along as documented. Storage grows in proportion to the content rather than to the limit, and is released again as elements are removed.",
["histories","inputs"],"All histories, all capacity/minimum-capacity pairs, measured at the allocator.",
"Tests look at internal capacity after a few fixed sequences.",
[S],[("growth","circular_buffer_space_optimized::check_low_capacity"),("shrink","circular_buffer_space_optimized::check_high_capacity"),("initial","circular_buffer_space_optimized::init_capacity, reduce_capacity")])
p("C18","The space-optimized buffer survives failures while growing and shrinking",
"When an allocation, an element operation or a source iterator throws at any point of any space-optimized buffer operation, the exception propagates, nothing leaks and nothing is destroyed twice, size stays within the capacity limit and the allocated storage, and only elements that were present or being inserted remain; the buffer stays fully usable. Changing the capacity and copy assignment leave the state unchanged on failure.",
["fault_sequences","histories"],"Every throw point of every operation from every state, including during shrinking after a removal.",
"Tests inject no failure into the space-optimized buffer's reallocation.",
[S,B],[("reallocation before/after the operation","circular_buffer_space_optimized::check_low_capacity, check_high_capacity, adjust_min_capacity")])
p("C19","Debug support flags exactly the invalidated iterators",
"With debug support on, after any operation an iterator obtained earlier reports itself valid for its buffer exactly when the operation is documented not to invalidate it: the element it points to was not removed, overwritten, shifted or relocated and the buffer not destroyed or swapped. Copying, assigning and destroying iterators in any order keeps the tracking exact and never makes the buffer and its iterators refer to dead objects.",
["histories","inputs"],"All histories of buffer operations interleaved with creation, copying, assignment and destruction of iterators.",
"Tests check is-valid flags in a dozen fixed places.",
[G,B,S],[("registry","debug_iterator_registry::invalidate_iterators, invalidate_iterators_except, remove, unregister_iterator"),("iterator base","debug_iterator_base copy/assign/destroy")])
p("C20","Debug support detects every documented misuse and changes nothing else",
"With debug support on, every use that breaks a documented precondition on positions, ranges, counts or emptiness (accessing or popping an empty buffer, an index past the size, dereferencing or advancing past the end, retreating before the beginning, using an invalidated, uninitialized or foreign iterator, a reversed range, erasing more than the size, capacity below the element count) triggers an assertion before memory is touched. Correct programs never trigger one and observe the same behaviour as without debug support, and released or not yet used slots of plain-pointer storage are filled with the marker byte 0xCC.",
["histories","inputs","configurations"],"All states, all misuses in the documented classes, and all correct histories.",
"Tests cannot contain aborting calls; none of the assertions is ever seen to fire.",
[B,D,G,S],[("assertions","BOOST_CB_ASSERT in base.hpp, details.hpp, space_optimized.hpp"),("fill","cb_details::do_fill_uninitialized_memory")])
p("C21","Comparison depends only on the element sequence",
"Equality, inequality and the four orderings of two buffers equal element-wise equality and lexicographical order of their sequences, whatever the internal layout, capacity or (for the space-optimized one) minimum capacity, and are mutually consistent. Comparison modifies nothing.",
["inputs","histories"],"All pairs of sequences (equal, prefix, differing at any position) in all layouts.",
T+"; comparisons use a few unwrapped pairs.",
[B,S],[("operators","operator==, <, !=, >, <=, >= in base.hpp and space_optimized.hpp")])
p("C22","Reading never writes and separate buffers share no state",
"Without debug support, const operations and the reading uses of iterators write neither to the buffer object nor to its storage, so any number of threads may read one buffer concurrently. Distinct buffers share no mutable state: operating on them from different threads at the same time, each with its own buffer, needs no synchronization and gives the same results as running each alone.",
["schedules","histories"],"All const operations in all states; concurrent histories on distinct buffers.",
"No test uses threads or write-protects a buffer.",
[B,D],[("const operations","const members of circular_buffer and cb_details::iterator")])
p("C23","Range operations work for every iterator category and read sources once",
"Constructing, assigning and inserting from a range gives the same result for input, forward, bidirectional and random-access iterators, pointers and moving iterators, in both buffers, and two integral arguments mean a count and a value. A single-pass source is read strictly forward, never dereferenced at or past its end, and each of its elements is read at most once; a multi-pass source is left unchanged unless the iterators themselves move.",
["inputs","histories"],"All range-taking overloads, all iterator categories, all lengths relative to the capacity, all states.",
"Tests use vectors and one adapted input iterator on a few states.",
[B,S],[("dispatch","initialize, assign, insert, rinsert category overloads"),("space-optimized dispatch","circular_buffer_space_optimized::insert/rinsert(pos, first, last), init_capacity, reduce_capacity")])
p("C24","Sizes and counts stay exact far beyond small values",
"Buffers whose capacity exceeds 8-, 16- and 32-bit ranges index, wrap, insert, erase, rotate and report sizes exactly, and counts up to the largest representable value given to insertion of n copies are clipped to the capacity rather than wrapping around. Constructing with or requesting a capacity above the maximum size raises a length error without allocating or changing anything.",
["inputs"],"All magnitudes of capacities, sizes, indices and counts up to the limits of the size type.",
"Tests use capacities below a thousand.",
[B,S,D],[("pointer arithmetic","circular_buffer::add, sub, array_one"),("count clipping","insert(pos, n, item), rinsert_n, check_low_capacity"),("limit","circular_buffer::allocate, max_size")])
p("C25","Every copyable element type works, and unused operations demand nothing",
"Both containers compile and behave as the same bounded sequence for every element type that can be copied and assigned, whatever else it has or lacks: no default constructor, no comparison operators, explicit or greedy constructors, its own operator new, comma or address-of operator, sealed, polymorphic, over-aligned or self-referential classes, aggregates, scalars, pointers, enumerations, nested containers. Types that can only be moved (without throwing) work in every operation that does not copy. Each operation asks only for what it uses: equality needs only ==, ordering only <, default-valued forms only a default constructor, and range forms accept minimal single-pass and forward iterators.",
["inputs","configurations"],"All element types meeting the documented requirements, all subsets of operations instantiated, all language standards and common build settings.",
"Tests instantiate a handful of element types that have every operator, so a requirement or assumption added to some member (a default constructor, bitwise relocation, implicit conversion) goes unnoticed.",
[B,S,D],[("element requirements","class documentation: Copyable/EqualityComparable notes of circular_buffer"),("construction","boost::allocator_construct calls, construct_or_replace"),("generic range handling","cb_details::is_iterator dispatch, assign_range, item_wrapper, iterator_wrapper, uninitialized_copy")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
print(len(P))
