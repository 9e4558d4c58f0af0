#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["include/boost/lockfree/"+f for f in files],
            state=[dict(name=a, meaning=b, where="include/boost/lockfree/"+c) for a,b,c in state],
            mechanism=[dict(name=a, where="include/boost/lockfree/"+b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))
SP, ST, QU, FL = "spsc_queue.hpp", "stack.hpp", "queue.hpp", "detail/freelist.hpp"
TP, TD, CP = "detail/tagged_ptr_ptrcompression.hpp", "detail/tagged_ptr_dcas.hpp", "detail/copy_payload.hpp"

prop("C01", "spsc_queue delivers every element exactly once, in push order",
 "With one producer thread and one consumer thread, the sequence of elements the consumer receives (through any pop, consume or front operation) is always a prefix of the sequence the producer successfully pushed: nothing is lost, duplicated, reordered or altered. This holds for every capacity, every fill level and wrap-around position, and for single-element, array, range and output-iterator forms in any mixture.",
 ["schedules","inputs","histories","configurations"], "all interleavings of one producer and one consumer, all capacities, all index positions, all batch sizes",
 "tests use a few fixed capacities and batch sizes; the wrap-around split depends on capacity x position x batch size and on where the other side is when the index is read",
 [SP, CP], [("single/batch copy with two-section wrap-around", SP+" ringbuffer_base::push / pop / consume_all"),("index publication", SP+" write_index_/read_index_ stores")],
 [("write_index_/read_index_", "positions of the next slot to fill / to drain, both < buffer size", SP)], ["return values and received elements"])
prop("C02", "spsc_queue capacity, full/empty and count results are exact",
 "A queue of capacity n accepts exactly n elements before it reports full; push fails only if the queue was full and pop/consume fails only if it was empty at some instant during the call. Batch operations transfer exactly min(requested, available) elements, and the count or iterator they return, as well as read_available and write_available, describe exactly that.",
 ["schedules","inputs","configurations"], "all capacities, index positions, batch sizes and interleavings of the opposite side",
 "tests check a handful of sizes; off-by-one errors at full, at exact wrap (index == buffer size) and with zero-length batches need every size/position combination",
 [SP], [("read_available/write_available/next_index arithmetic", SP), ("min(count, available)", SP)], (), ["return values"])
prop("C03", "spsc_queue never exposes a slot to both threads at once",
 "A producer constructs an element only in a slot the consumer has finished with, and a consumer reads or destroys only elements whose construction is complete and visible to it. The hand-over in both directions is ordered (release/acquire), so no data race on elements is possible on any memory model.",
 ["schedules"], "all interleavings and all memory-model behaviours of one producer and one consumer",
 "x86 hides missing release/acquire ordering and index-before-data publication almost always; stress tests sample few schedules",
 [SP], [("store-release of own index after touching elements, load-acquire of the other index before", SP)])
prop("C04", "spsc_queue constructs and destroys each element exactly once",
 "Every element stored by a successful push is copy-constructed exactly once and destroyed exactly once: when it is consumed, on reset, or when the queue is destroyed; a push that fails because copying an element throws destroys the copies it has made. Destroying the queue destroys precisely the elements still stored and returns the buffer once, with the size it was requested with, to the allocator it came from.",
 ["histories","inputs","configurations"], "all fill levels, wrap positions, capacities, element types with non-trivial lifetime",
 "tests count instances for one short scenario; leaks or double destruction at a wrap position or partial batch need all positions",
 [SP], [("destructor call after copy / functor", SP+" copy_and_delete, run_functor_and_delete, consume_one"),("consume_all in destructors and reset", SP)])
prop("C05", "stack is a linearizable LIFO under any concurrent use",
 "For any number of threads calling push, pop, consume_one, consume_all and empty concurrently, there is a total order of the operations, consistent with real time, in which every pop returns the value of the most recent unpopped push, and a pop or consume reports empty only if the stack was empty at some instant during the call. No element is lost, duplicated or altered.",
 ["schedules","histories"], "all interleavings of any number of threads and operations",
 "stress tests sample a few schedules and only check value conservation; ABA-type failures need a node to be recycled between a read and a compare-and-swap",
 [ST, FL, CP], [("CAS loop on tagged top-of-stack", ST+" link_nodes_atomic, consume_one"),("tag increment on removal", ST+" consume_one")],
 [("tos", "tagged handle of the top node", ST)])
prop("C06", "stack ranged push inserts one contiguous block atomically",
 "A ranged push makes all elements it accepts visible in a single atomic step, adjacent to each other, with later elements of the range nearer the top; no other thread's element can ever appear between them and no partial prefix is ever observable. It returns the iterator to the first element not pushed (the end on full success, the beginning if nothing was pushed), and an empty range changes nothing.",
 ["schedules","inputs","fault_sequences"], "all range lengths including zero, all points at which node supply runs out, all interleavings",
 "tests push one short range single-threaded; empty ranges, exhaustion in mid-range and interleaved pops are not exercised",
 [ST], [("private chain built first, then one CAS", ST+" prepare_node_list + link_nodes_atomic")])
prop("C07", "stack take-all operations detach the whole content atomically",
 "consume_all_atomic and its reversed form remove, in one atomic step, exactly the elements present at that instant, and then hand each of them to the functor exactly once: in LIFO order, or in insertion (FIFO) order for the reversed form. They return the number of elements consumed, 0 only if the stack was empty at some instant; elements pushed after the detaching step stay in the stack.",
 ["schedules","inputs"], "all stack sizes, all interleavings with pushes and pops",
 "tests use three elements single-threaded; interleavings at the detaching step and the node recycling during traversal are not covered",
 [ST], [("CAS of top to null with tag increment", ST+" consume_all_atomic"),("private list reversal", ST+" consume_all_atomic_reversed")])
prop("C08", "queue is a linearizable FIFO under any concurrent use",
 "For any number of producers and consumers calling push, pop, consume_one and consume_all concurrently, there is a total order of the operations, consistent with real time, in which every pop returns the oldest element not yet popped, and a pop or consume reports empty only if the queue was empty at some instant during the call. No element is lost, duplicated, altered, and elements pushed by one thread are received in the order it pushed them.",
 ["schedules","histories"], "all interleavings of any number of threads and operations",
 "stress tests sample schedules and check only conservation of values; lagging tail, recycled dummy node and stale next pointers need particular interleavings",
 [QU, FL, CP], [("Michael-Scott head/tail/next protocol with re-validation of head and tail", QU+" do_push, pop"),("tag increments on head, tail, next", QU)],
 [("head_, tail_", "tagged handles of dummy node and last (or last but one) node", QU)])
prop("C09", "A pool node is never held by two owners and never lost",
 "Each node handed out by the internal node pool belongs exclusively to the operation that received it until it is linked or given back: it is never handed to a second operation, never present in the pool and in the container at once, and never given back twice. Every operation on stack or queue, successful or not, leaves each node either in the container or back in the pool, so none is lost.",
 ["schedules","histories","configurations"], "all interleavings of allocation and release, all pool kinds",
 "freelist tests sample schedules; a double hand-out needs a recycled node between read and compare-and-swap, a lost node only shows after many operations",
 [FL, ST, QU], [("CAS push/pop on pool head with tag", FL+" allocate_impl, deallocate_impl"),("construct/destruct pairing", ST+", "+QU)],
 [("pool_", "tagged handle of the first free node", FL)])
prop("C10", "Node memory is kept until destruction and then returned exactly once",
 "Memory of a node is never given back to the allocator while the container lives, so a concurrent operation holding a stale reference never touches freed memory. Destroying a stack or queue destroys all remaining elements exactly once and returns every node ever obtained exactly once, with matching size, to the container's own allocator; all node memory comes from that allocator.",
 ["histories","schedules","configurations"], "all histories before destruction, all container configurations and allocators",
 "tests check instance counts for one scenario and allocator use only by compiling; leaks after particular histories are invisible",
 [FL, ST, QU], [("freelist destructor traversal", FL+" ~freelist_stack, ~runtime_sized_freelist_storage"),("drain in container destructors", ST+", "+QU)])
prop("C11", "Bounded and fixed-size operations respect capacity and never allocate",
 "bounded_push, and every operation of a fixed-size or compile-time-capacity stack or queue after construction, never obtains memory from the allocator; a push reports failure exactly when no free node was available at some instant during the call, and unbounded push never fails. A fixed-size container of size n holds n elements at once, pre-allocation makes n nodes available, sizes above 65535 nodes are rejected, and all node storage lies inside the memory reserved for it.",
 ["configurations","schedules","inputs","histories"], "all sizes 0..65535, all configurations, all interleavings",
 "tests use a few sizes; index 65535, the last slot, exhaustion and the extra dummy node of the queue are corner cases of the size",
 [FL, ST, QU, "detail/parameter.hpp"], [("Bounded template flag", FL+" allocate_impl"),("16 bit index with count as null", FL+" fixed_size_freelist"),("capacity + 1 dummy node", QU)])
prop("C12", "Tagged handles store pointer and tag losslessly",
 "A tagged handle built from a pointer (or index) and a tag returns exactly both, replacing one component leaves the other unchanged, two handles compare equal exactly if both components are equal, and the null handle is distinguishable from every real node. The successor tag is the tag plus one modulo 2^16 for every tag and never disturbs the pointer.",
 ["inputs","configurations"], "all pointers/indices of the platform's user address range and all 2^16 tags, in every handle representation",
 "tests build three handles; truncation, sign extension and carry from the tag into the pointer need particular bit patterns",
 [TP, TD, FL], [("packing into 64/128 bit word", TP+" pack_ptr/extract_ptr/extract_tag"),("tagged_index", FL)])
prop("C13", "Recycling a node always changes the version a stale CAS compares",
 "Whenever an element or node is removed (from stack, queue or pool) and whenever a queue link is filled or a node re-initialised, the version stored next to the handle advances, and giving a node back to the pool never resets it. Hence a compare-and-swap based on a value read before a node was removed and re-inserted fails, as long as fewer than 2^16 removals happen in between.",
 ["schedules","histories"], "all interleavings in which nodes are recycled, all operations incl. unsynchronized ones",
 "an ABA failure needs a remove, reuse and re-insert of the same node inside another thread's read-CAS window, which stress tests practically never hit or notice",
 [FL, ST, QU, TP], [("get_next_tag on every removal", FL+" allocate_impl; "+ST+" consume_one; "+QU+" pop"),("tag of next kept through the free list and incremented by the node constructor", QU+" node; "+FL+" deallocate_impl set_ptr/set_index")])
prop("C14", "Unsynchronized operations are equivalent to their concurrent forms",
 "When no other thread accesses the container, each unsynchronized push or pop (and unsynchronized reserve) has exactly the effect and result of the corresponding thread-safe operation in every container configuration, and leaves the container in a state on which both kinds of operation continue to work correctly.",
 ["inputs","histories","configurations"], "all container states and all mixtures with thread-safe operations",
 "tests call them on tiny containers of one configuration; states such as a lagging tail or a recycled node are not reached",
 [ST, QU, FL], [("plain load/store versions of the protocols", ST+" link_nodes_unsafe, unsynchronized_pop; "+QU+" unsynchronized_push/pop; "+FL+" *_impl_unsafe")])
prop("C15", "Operations are lock-free, and wait-free for spsc_queue",
 "A stack, queue or pool operation repeats an attempt only if another thread's operation changed the shared state in the meantime (or a weak compare-and-swap failed spuriously); running alone, it finishes within a constant number of attempts from every reachable state, even if other threads were stopped in the middle of their operations. spsc_queue operations never wait or retry: their number of steps depends only on the number of elements transferred.",
 ["schedules","crash_points"], "all reachable states, including every point at which other threads may be suspended or killed",
 "stress tests terminate as long as every thread keeps running; a dependence on another thread's progress only shows when that thread stops at a particular point",
 [ST, QU, FL, SP], [("helping a lagging tail", QU+" do_push, pop"),("CAS retry loops", ST+", "+FL)])
prop("C16", "Consume operations call the functor exactly once per removed element",
 "consume_one and consume_all, on all containers, invoke the functor exactly once for each element they remove and for no other, on the element's correct value, in removal order, while the element is exclusively owned and alive. The boolean or count returned equals the number of invocations, and the element is destroyed once and only after its invocation.",
 ["schedules","inputs"], "all container contents and interleavings, lvalue and const functors",
 "tests consume a few elements single-threaded; double invocation on a retried attempt or access after recycling needs contention",
 [ST, QU, SP], [("functor called after the winning CAS / before index publication", ST+" consume_one; "+QU+" consume_one; "+SP+" consume_one/consume_all")])
prop("C17", "Failing allocations and element copies leave containers intact and leak nothing",
 "If the allocator fails by throwing during a push (single or ranged), a reserve or a construction, or the copy constructor of an element throws during a push, the exception reaches the caller, elements stored earlier are untouched, no element of the failed call becomes visible, and every node acquired by the call is back in the pool or returned to the allocator. A failed operation can simply be repeated.",
 ["fault_sequences","inputs"], "every allocation, and every copy of an element during a push, may be the failing one",
 "no test injects allocation failures into containers; the failing position within a range matters",
 [ST, FL, QU], [("catch block that returns the private chain", ST+" prepare_node_list")])
prop("C18", "Elements handed between threads through stack and queue are safely published",
 "Everything a thread did to an element or node before pushing it is visible to the thread that receives it, and everything the receiver did before giving the node back is visible to the node's next user: each hand-over goes through a release operation and a matching acquire operation. No operation relies on the contents of a node it reached through an unordered read.",
 ["schedules"], "all interleavings and all memory-model behaviours of any number of threads",
 "x86 implements every load as acquire and every store as release, so missing ordering never fails in the tests here",
 [ST, QU, FL], [("memory orders on head_/tail_/next/tos/pool_ accesses", QU+", "+ST+", "+FL)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
