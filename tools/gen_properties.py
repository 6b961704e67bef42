#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, kept readable here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CBMC = ("The stable tests are bounded models of allocate/reallocate, resource init/release, list create/release "
        "and the string functions plus Rocq proofs about abstract models; ")

# ---------------------------------------------------------------- memory
p("C01", "Owned memory and handles are released exactly once, with no stray access",
  "Whatever sequence of valid API calls a program makes, the library reads and writes only live memory it owns or was "
  "handed, and returns each block exactly once, to the allocator it came from. Once every top-level object has been "
  "released, every block, file descriptor and stack mapping the library obtained is gone, and every resource given into "
  "a container's, message's, fiber's or socket's ownership has been released exactly once. A resource handed back to the "
  "caller (pop, swap, receive, remove, non-releasing delete) is never released by the library.",
  ["histories", "inputs"], "all valid sequences of public API calls across every component and all data passed to them",
  CBMC + "no test executes a multi-call history against real memory, and none counts allocations, descriptors or mappings.",
  ["src/list", "src/slist", "src/queue", "src/rbtree", "src/string", "src/psock", "src/fiber/common", "src/message",
   "src/condition", "src/auto_reset_trigger", "src/bigint", "src/stack", "src/platform/pthread/thread"],
  [("resource_release dispatch", "src/resource/resource_release.c"),
   ("per-object release methods", "*_resource_handle.c, *_release.c, list_node_cleanup.c, rbtree_delete_nodes.c"),
   ("reference counted tree/sched teardown", "src/fiber/common/fiber_scheduler_resource_release.c")],
  ["instrumented allocator passed to every constructor", "AddressSanitizer", "/proc/self/fd and /proc/self/maps before and after"])

p("C02", "Allocation failure is reported cleanly and leaves state as it was",
  "If any single allocation made by a documented-fallible operation fails, the operation returns an error instead of "
  "success, leaks nothing, and releases nothing that the caller still owns. A failing constructor or conversion leaves its "
  "output pointer null; a failing insertion, append or registration leaves the container with the contents it had. "
  "The same operation succeeds when retried with memory available.",
  ["fault_sequences", "histories"], "every operation, every position k of the failing allocation (single failures, and failures persisting "
  "from k on), from every reachable state sampled",
  CBMC + "malloc failure is modelled for a handful of functions only and never in the middle of a multi-allocation operation on real code.",
  ["src/list/list_create.c", "src/slist/slist_create.c", "src/queue/queue_create.c", "src/rbtree/rbtree_insert.c",
   "src/string/vstrcat.c", "src/psock", "src/fiber/common", "src/message", "src/condition", "src/auto_reset_trigger"],
  [("cleanup goto chains", "every *_create.c"),
   ("undo in scheduler add", "src/fiber/common/fiber_scheduler_add.c"),
   ("undo in discipline add", "src/fiber/common/fiber_scheduler_discipline_add.c")],
  ["return status, output pointers, allocator ledger, container contents"])

p("C03", "A failing child release is reported and does not stop the rest",
  "If releasing one of the resources owned by a container, or giving its memory back to the allocator, fails while the container (or one of its elements, or a message "
  "or mailbox holding it) is being released, cleared or removed from, the caller receives an error status. Every other owned resource is still "
  "released exactly once, and the container's own memory is still returned to its allocator. A removal that fails, or finds nothing, leaves the caller's pointer NULL.",
  ["fault_sequences", "histories"], "every resource type and container size, every subset of child resources whose release fails, every failing return of memory",
  CBMC + "no test injects a failing release into a populated container.",
  ["src/list/list_clear.c", "src/list/list_node_cleanup.c", "src/slist/slist_clear.c", "src/slist/slist_node_cleanup.c",
   "src/rbtree/rbtree_delete_nodes.c", "src/queue/queue_resource_handle.c", "src/message/message_create.c"],
  [("release status combining", "the release_retval / reclaim_retval pattern in each release method")],
  ["return status of resource_release / clear, per-resource release counters, allocator ledger"])

p("C04", "Allocators return usable, disjoint, aligned blocks within their bounds",
  "A successful allocation of n bytes yields n bytes that do not overlap any other live block, are suitably aligned (16 bytes "
  "for the region-backed allocator), and lie inside the backing region when there is one. Reallocation preserves the common "
  "prefix of the contents, or fails leaving the block and pointer untouched; an allocation that does not fit, however large the "
  "request, fails with an out-of-memory error and a null pointer and changes nothing. Resetting the region-backed "
  "allocator makes its whole remaining region available again; unknown control keys are rejected.",
  ["inputs", "histories"], "all request sizes (0 to SIZE_MAX), region sizes and misalignments, and interleavings of allocate, reclaim, reallocate, reset",
  CBMC + "the region-backed (bump) allocator has no stable test at all.",
  ["src/allocator/bump_allocator_create.c", "src/allocator/malloc_allocator_create.c", "src/allocator/allocator_allocate.c",
   "src/allocator/allocator_reallocate.c", "src/allocator/allocator_control.c"],
  [("offset alignment and bounds check", "bump_allocator_allocate in src/allocator/bump_allocator_create.c"),
   ("realloc wrapper", "malloc_allocator_reallocate in src/allocator/malloc_allocator_create.c")],
  ["returned pointers, contents of live blocks, guard bytes around the region"])

# ---------------------------------------------------------------- containers
p("C05", "Doubly linked list behaves as an ordered sequence of owned resources",
  "After any sequence of list operations, walking forward from the head and backward from the tail yields exactly the "
  "resources, in the order, that a simple sequence model predicts, and the reported count equals their number. Inserting before "
  "or after any node, popping the head, swapping a node's child and clearing affect exactly the named position, and asking an empty "
  "list for its head or tail, or popping it, reports that there is nothing.",
  ["histories"], "all sequences of list operations over any number of lists, with any node as target",
  CBMC + "only creating and releasing an empty list is covered by a stable test.",
  ["src/list"],
  [("linking and unlinking", "src/list/list_insert.c, list_append.c, list_insert_head.c, list_append_tail.c, list_node_cleanup.c, list_pop.c"),
   ("swap re-parenting", "src/list/list_swap.c")],
  ["list_head/list_tail/list_node_next/list_node_prev/list_node_child/list_count"],
  [("head, tail, count, node prev/next/parent", "the represented sequence", "src/list/list_internal.h")])

p("C06", "Singly linked list behaves as an ordered sequence of owned resources",
  "After any sequence of singly linked list operations, walking from the head yields exactly the resources, in the order, that a "
  "simple sequence model predicts, the tail is the last of them and the reported count equals their number. Inserting at the head, "
  "appending at the tail or after any node, popping the head or the successor of any node, swapping a node's child and clearing affect "
  "exactly the named position.",
  ["histories"], "all sequences of slist operations over any number of lists, with any node as target",
  CBMC + "no stable test touches the singly linked list.",
  ["src/slist"],
  [("linking and unlinking", "src/slist/slist_append.c, slist_append_tail.c, slist_insert_head.c, slist_pop.c, slist_node_next_pop.c"),
   ("swap re-parenting", "src/slist/slist_swap.c")],
  ["slist_head/slist_tail/slist_node_next/slist_node_child/slist_count"],
  [("head, tail, count, node next/parent", "the represented sequence", "src/slist/slist_internal.h")])

p("C07", "Queue delivers resources in order, each exactly once",
  "Resources appended to a queue come out first-in first-out, and a resource inserted at the front comes out next; each comes out "
  "exactly once. The count always equals the number of resources currently held, and popping an empty queue yields no resource and leaves "
  "the queue usable.",
  ["histories"], "all sequences of append, front-insert, pop and count on any number of queues, including emptying and refilling",
  CBMC + "no stable test touches the queue.",
  ["src/queue"], [("delegation to the linked list", "src/queue/queue_append.c, queue_insert.c, queue_pop.c")],
  ["queue_pop results and queue_count"])

p("C08", "Tree is an ordered map over the caller's comparison",
  "After any sequence of insertions, finds, deletions, clears and swaps with distinct keys, finding a key returns exactly the resource last inserted "
  "under it, and a missing key is reported as not found. Minimum, maximum, successor and predecessor enumerate exactly the stored resources in "
  "the caller's comparison order, and the count equals their number. Deleting a key removes only that entry and hands its resource to the caller, or "
  "releases it when the caller does not ask for it.",
  ["histories", "inputs"], "all operation sequences, key orders, comparison functions and tree sizes",
  CBMC + "the tree's insertion and deletion code is not exercised by any stable test; its rebalancing cases depend on the operation history.",
  ["src/rbtree"],
  [("search", "src/rbtree/rbtree_find_node.c"), ("insertion", "src/rbtree/rbtree_insert_node.c"),
   ("removal", "src/rbtree/rbtree_remove_node.c, rbtree_transplant.c"), ("traversal", "rbtree_successor_node.c, rbtree_predecessor_node.c")],
  ["rbtree_find, traversal functions, rbtree_count"])

p("C09", "Tree stays balanced, so every lookup is logarithmic",
  "After any sequence of insertions and deletions leaving n entries, no entry lies deeper than 2*log2(n+1) levels, so no find, insertion or deletion "
  "needs more than that many comparisons (plus a constant). The node structure is a consistent binary tree: parent and child links agree and every stored "
  "entry is reachable from the root exactly once.",
  ["histories"], "all operation sequences, in particular long runs of deletions and adversarial (sorted, alternating, clustered) key orders",
  CBMC + "a wrong rebalancing step leaves lookups correct and only degrades depth after particular deletion histories, which no fixed test explores.",
  ["src/rbtree/rbtree_insert_fixup.c", "src/rbtree/rbtree_delete_fixup.c", "src/rbtree/rbtree_left_rotate.c",
   "src/rbtree/rbtree_right_rotate.c", "src/rbtree/rbtree_remove_node.c"],
  [("red-black recolouring and rotation", "rbtree_insert_fixup.c, rbtree_delete_fixup.c")],
  ["number of calls of the caller's comparison callback; depth measured by walking root/left/right node accessors"])

p("C10", "Swapping two containers exchanges contents and leaves both independent",
  "After swapping two lists, two singly linked lists or two trees, each presents exactly what the other presented before. Both remain fully usable: any "
  "further operation on one, including operations on nodes obtained from it and releasing it, acts on that container alone and leaves the other's contents and count intact.",
  ["histories"], "all pairs of container contents (including empty) and all operation sequences after one or more swaps, in either release order",
  CBMC + "no stable test calls a swap.",
  ["src/list/list_swap.c", "src/slist/slist_swap.c", "src/rbtree/rbtree_swap.c"],
  [("exchange of contents and re-parenting", "list_swap.c, slist_swap.c, rbtree_swap.c")],
  ["contents, counts and node operations on both containers after the swap"])

# ---------------------------------------------------------------- text
p("C11", "String predicates and trimming agree with their definitions",
  "Trimming removes exactly the leading and/or trailing whitespace (space, tab, newline, carriage return, vertical tab, form feed) of any "
  "NUL-terminated string and nothing else. Chomp removes exactly the last character, if there is one; starts-with is true exactly when the string begins with the "
  "given text (including empty and over-long ones), and ends-with exactly when its last character is the given one. None of them touches a byte outside the string.",
  ["inputs"], "all NUL-terminated byte strings, including empty, all-whitespace and bytes above 127",
  CBMC + "the bounded models of these functions check memory safety up to a small bound, not the result.",
  ["src/string/is_whitespace.c", "src/string/left_trim.c", "src/string/right_trim.c", "src/string/trim.c", "src/string/chomp.c",
   "src/string/starts_with.c", "src/string/ends_with.c"],
  [("scan loops", "src/string/*.c")], ["resulting string, guard bytes, AddressSanitizer"])

p("C12", "Word, split and multi-way split partition a string exactly",
  "Iterating words yields exactly the maximal runs of non-whitespace bytes, in order, then reports the end. The multi-way split yields, likewise, exactly the maximal runs of bytes "
  "which the caller's predicate does not call separators. Splitting at a character yields the text before its first occurrence and the text after it, or reports that "
  "there is none and leaves the string whole; no byte outside the string is read or written.",
  ["inputs"], "all NUL-terminated byte strings, delimiters (including overlapping, repeated, leading and trailing) and iteration steps",
  CBMC + "the bounded models check safety up to a small bound, not which pieces come out.",
  ["src/string/words.c", "src/string/split.c", "src/string/multisplit.c"],
  [("word iterator", "src/string/words.c"), ("split point search", "src/string/split.c, src/string/multisplit.c")],
  ["returned pieces and iterator state"])

p("C13", "Duplicated and concatenated strings equal their inputs joined",
  "Duplicating a string yields a fresh, equal, NUL-terminated copy in exactly one block of the given allocator. Concatenating any number of strings yields their "
  "exact in-order concatenation, for any lengths and any count including zero, leaving the inputs untouched.",
  ["inputs"], "all strings and argument counts",
  CBMC + "variadic concatenation has no stable test, and string duplication only a bounded safety model.",
  ["src/string/strdup.c", "src/string/vstrcat.c", "include/rcpr/string.h"],
  [("length pass and copy pass", "src/string/vstrcat.c")], ["result bytes, block size, allocator ledger"])

p("C14", "UUID text conversion round-trips and rejects everything malformed",
  "Formatting any 16-byte identifier yields its canonical 36-character lower-case hyphenated form, NUL-terminated in exactly the documented buffer, and parsing that "
  "form, in either letter case, gives back the same 16 bytes. Any text that is not exactly of that form (wrong length, misplaced hyphen, non-hex digit, trailing text) "
  "is rejected with an error and leaves the output identifier unmodified.",
  ["inputs"], "all 2^128 identifiers and all byte strings offered for parsing (with and without terminator)",
  "No stable test runs the UUID code at all.",
  ["src/uuid/rcpr_uuid_to_string.c", "src/uuid/rcpr_uuid_parse_string.c", "src/uuid/rcpr_uuid_parse_raw_string.c"],
  [("hex formatting", "src/uuid/rcpr_uuid_to_string.c"), ("length and hyphen checks", "src/uuid/rcpr_uuid_parse_raw_string.c")],
  ["formatted text, parsed bytes, status, guard bytes"])

p("C15", "Big integers are created zero and clone to equal, independent values",
  "A newly created big integer represents zero at the requested width and owns storage for exactly that width. A clone has the same sign, width and digits as its "
  "source, and neither later mutation nor release of one affects the other; releasing either wipes and returns all of its storage.",
  ["inputs", "histories"], "all widths and digit contents, clone chains and release orders",
  "No stable test runs the big integer code.",
  ["src/bigint/bigint_create_zero.c", "src/bigint/bigint_clone.c", "src/bigint/bigint_release.c"],
  [("storage sizing and copy", "src/bigint/bigint_clone.c, bigint_create_zero.c")],
  ["digits, length and sign of both objects; allocator ledger; bytes at reclaim time"])

p("C16", "Auto-reset trigger fires the registered callback once per signal, no loss",
  "A registered callback is called exactly once, from a step, after a signal and a registration have both happened (in either order, with repeated signals coalescing), and "
  "never without both. Firing consumes the signal and the registration, and signals or registrations made from inside the callback take effect "
  "for the next step rather than being lost.",
  ["histories"], "all interleavings of signal, register and step, including calls made re-entrantly from the callback",
  "No stable test runs the trigger code.",
  ["src/auto_reset_trigger/auto_reset_trigger_signal.c", "src/auto_reset_trigger/auto_reset_trigger_step.c", "src/auto_reset_trigger/auto_reset_trigger_register.c"],
  [("signal/callback state machine", "src/auto_reset_trigger/auto_reset_trigger_step.c")],
  ["callback invocations with their context argument"])

# ---------------------------------------------------------------- threads
p("C17", "Threads run once and join; mutexes exclude; condition variables wake",
  "A created thread runs its function exactly once with its context, on a stack of at least the requested size, and releasing its handle returns only after it has finished. At most one "
  "thread holds a mutex at a time, and what a holder wrote is visible to the next. A waiter gives the mutex up while waiting and holds it again on return; signalling "
  "one wakes at least one waiter and signalling all wakes every waiter. An operation the threading system refuses is reported as an error, hands out no handle "
  "(the output is NULL) and leaks nothing.",
  ["schedules"], "all thread counts and interleavings of lock, wait, signal and release",
  "No stable test creates a thread; exclusion and wake-ups depend on the schedule.",
  ["src/platform/pthread/thread"],
  [("pthread wrapping and lock handle ownership", "src/platform/pthread/thread/thread_cond_wait.c, thread_mutex_lock_acquire.c, thread_create.c")],
  ["ThreadSanitizer, critical-section monitor, event counters"])

# ---------------------------------------------------------------- sockets
p("C18", "Byte-order and descriptor utilities do exactly what they say",
  "Byte-order conversion is big-endian on the wire and its own inverse for every value. Moving descriptors above a threshold, and mapping descriptors onto an assigned set, leaves "
  "each named target referring to the same open file its source did, even when sources and targets coincide or overlap, leaves unrelated descriptors "
  "untouched and reports the new numbers. Closing other or standard descriptors, making a descriptor non-blocking, and socket-pair creation affect exactly the descriptors named.",
  ["inputs", "configurations"], "all integer values; all assignments of source and target descriptors, including chains, equal source and target, and reversed orders",
  "No stable test runs the socket utilities.",
  ["src/socket_utilities"],
  [("dup and close order", "vsocket_utility_setfds.c, vsocket_utility_move_descriptors.c"), ("byte swapping", "socket_utility_hton*.c, socket_utility_ntoh*.c")],
  ["fstat identity and flags of every descriptor before and after, in a forked child"])

p("C19", "Typed values written to a socket are read back equal, in order",
  "Any sequence of typed values (boxed or raw integers of every width, booleans, strings, byte blocks) written through the socket abstraction and read back with the matching "
  "operations gives the same values in the same order, over stream sockets, memory buffers, user-supplied methods, buffered and asynchronous wrappers alike. Each write puts exactly its documented "
  "encoding on the wire: a 32-bit big-endian type tag for boxed values, a 32-bit big-endian length for strings and blocks, big-endian integers.",
  ["inputs", "histories", "schedules"], "all value sequences, lengths (including zero), and fragmentations of the byte stream by the transport",
  "No stable test runs the socket code; fragmentation is chosen by the kernel or peer.",
  ["src/psock/psock_read_block.c", "src/psock/psock_write_block.c", "src/psock/psock_read_boxed_*.c", "src/psock/psock_write_boxed_*.c",
   "src/psock/psock_read_raw_*.c", "src/psock/psock_write_raw_*.c"],
  [("encode/decode", "src/psock/psock_{read,write}_{boxed,raw}_*.c"), ("transport loops", "psock_from_descriptor_read.c, psock_from_descriptor_write.c, psock_wrap_async_*.c")],
  ["bytes on the wire captured by the peer; values read back"])

p("C20", "Hostile or truncated input is rejected without harm",
  "Whatever bytes a peer sends, and wherever the stream ends, reading a typed value either returns a value consistent with the documented encoding of those bytes or fails with an error. "
  "A type tag that does not match the requested type is always rejected; a truncated value is never reported as success. A failing read hands the caller no memory and leaks none, whatever length the peer announces.",
  ["inputs", "fault_sequences"], "all byte streams, truncation points, announced lengths and transport error points",
  "No stable test runs the socket code; the input space is adversarial.",
  ["src/psock/psock_read_boxed_*.c", "src/psock/psock_read_raw_*.c", "src/psock/psock_read_block.c"],
  [("type and size validation", "src/psock/psock_read_boxed_*.c"), ("cleanup on partial read", "psock_read_boxed_string.c, psock_read_boxed_data.c, psock_read_raw_data.c")],
  ["status, outputs, allocator ledger, AddressSanitizer"])

p("C21", "Memory-buffer sockets read the buffer and collect the writes exactly",
  "A socket created over a caller's buffer reads exactly that buffer's bytes once, in order, and then reports the end of data. One created without a buffer "
  "collects exactly the bytes written to it, in order, and extracting its output returns a fresh block holding precisely the bytes written so far, as often as it is asked. "
  "The caller's own buffer is never written, kept or released.",
  ["inputs", "histories"], "all contents, read and write sizes, and interleavings with output extraction, including writes that cross internal block boundaries",
  "No stable test runs the socket code.",
  ["src/psock/psock_create_from_buffer.c", "src/psock/psock_from_buffer_read.c", "src/psock/psock_from_buffer_write.c", "src/psock/psock_from_buffer_get_output_buffer.c"],
  [("output block queue", "psock_from_buffer_write.c, psock_from_buffer_get_output_buffer.c")],
  ["bytes read, extracted block and size"])

p("C22", "Buffered reader returns the stream's lines and bytes exactly once, in order",
  "Any interleaving of line reads and byte or typed reads through a buffered reader yields the underlying stream's bytes exactly once and in order, with nothing lost, duplicated or invented however "
  "the transport fragments it. A line read returns the bytes up to the next newline, NUL-terminated within the caller's buffer; a line longer than the buffer comes back "
  "in consecutive pieces, each reported as truncated. Writes, accepts and descriptor passing go through to the underlying socket unchanged.",
  ["inputs", "histories", "schedules"], "all stream contents, buffer sizes (including tiny ones), transport fragmentations and operation interleavings",
  "No stable test runs the socket code; buffering errors show only at particular alignments of lines, buffer ends and fragments.",
  ["src/psock/psock_br_fill.c", "src/psock/psock_br_read_line.c", "src/psock/psock_br_psock_read.c", "src/psock/psock_br_create_from_psock.c"],
  [("fill and compaction", "src/psock/psock_br_fill.c"), ("line scan", "src/psock/psock_br_read_line.c")],
  ["bytes and lines returned, against the scripted stream"])

p("C23", "Asynchronous sockets deliver every stream complete and make progress",
  "When many fibers in one scheduler read, write and accept over asynchronous sockets, every byte sent arrives exactly once, in order, at the right peer, and a block operation returns only when "
  "complete or at a reported end or error. A fiber that waits for a descriptor is resumed once that descriptor is ready, including when the peer closes, and is never "
  "resumed for another's; other fibers keep running while it waits.",
  ["schedules", "inputs", "fault_sequences"], "all numbers of fibers and sockets, transfer sizes, fragmentations, peer closes and readiness orders, on both the epoll and the poll back end",
  "No stable test runs the socket or fiber code; readiness order and partial transfers are chosen by the kernel.",
  ["src/psock/psock_create_wrap_async.c", "src/psock/psock_wrap_async_read.c", "src/psock/psock_wrap_async_write.c", "src/psock/psock_wrap_async_accept.c",
   "src/psock/psock_read_block.c", "src/psock/psock_write_block.c", "src/psock/platform/epoll", "src/psock/platform/poll"],
  [("wait registration and idle fiber", "src/psock/platform/{epoll,poll}"), ("retry loops", "psock_wrap_async_read.c, psock_wrap_async_write.c")],
  ["per-stream byte logs at both ends, completion of all fibers, watchdog"])

p("C24", "Descriptor passing transfers exactly one usable descriptor",
  "Writing a descriptor to a local socket and reading it at the other end yields a new descriptor for the same open file; the sender keeps its own, and ordinary data written before and after arrives "
  "intact. Reading where no descriptor was sent, or where a peer sends something else, fails with an error, returns no descriptor, and leaves no extra descriptor open.",
  ["inputs", "histories", "fault_sequences"], "all sequences of descriptor and data transfers, blocking or asynchronous, and all control messages a hostile peer may send",
  "No stable test runs the socket code.",
  ["src/psock/psock_write_raw_descriptor.c", "src/psock/psock_read_raw_descriptor.c", "src/psock/psock_from_descriptor_sendmsg.c",
   "src/psock/psock_from_descriptor_recvmsg.c", "src/psock/psock_wrap_async_sendmsg.c", "src/psock/psock_wrap_async_recvmsg.c"],
  [("control message validation", "src/psock/psock_read_raw_descriptor.c")],
  ["fstat identity of the received descriptor, /proc/self/fd"])

p("C25", "Listening and connecting sockets carry data between the right peers",
  "A socket created on a listen address accepts each incoming connection exactly once, reporting the peer's own address, and a socket created for a host and port is connected to the listener there. Creation "
  "towards an address nobody listens on fails with an error and leaves no descriptor open. Each reports the kind of socket it is.",
  ["configurations", "schedules"], "all numbers and orders of connections over IPv4 and IPv6 loopback, success and failure",
  "No stable test runs the socket code.",
  ["src/psock/psock_create_from_hostname_and_port.c", "src/psock/psock_create_from_listen_address.c", "src/psock/psock_accept.c",
   "src/psock/psock_from_descriptor_accept.c", "src/psock/psock_setsockopt.c", "src/psock/psock_socket_type.c"],
  [("address resolution and connect loop", "psock_create_from_hostname_and_port.c"), ("bind and listen", "psock_create_from_listen_address.c")],
  ["connection nonces exchanged, addresses, /proc/self/fd"])

p("C33", "Socket operations reach the implementation behind the handle",
  "On a socket made of user methods, every operation (reads, writes, accept, setting an option, release) calls the user's own method for it, with that socket, the user's context and the caller's arguments, and "
  "hands its result and error status back; raw reads, accepts, options and releases call it exactly once. A write is complete or reported as failed, never quietly short, and an operation without a method fails without effect. "
  "On a descriptor socket an option is set on that descriptor exactly as the system would, and an option the system refuses is reported as an error.",
  ["inputs", "histories", "fault_sequences"], "all sequences of operations, all results, failures and partial transfers of the methods",
  "No stable test runs the socket code with user methods or options; failures and partial writes occur only when a method produces them.",
  ["src/psock/psock_create_from_user_methods.c", "src/psock/psock_setsockopt.c", "src/psock/psock_from_descriptor_setsockopt.c", "src/psock/psock_accept.c", "src/psock/psock_read_raw.c",
   "src/psock/psock_write_raw_data.c", "src/psock/psock_write_boxed_data.c", "src/psock/psock_resource_handle_to_psock.c"],
  [("forwarding of each method", "psock_create_from_user_methods.c"), ("short transfers", "psock_write_raw_data.c, psock_write_boxed_data.c")],
  ["scripted user methods recording every call; getsockopt on the descriptor and on a twin"])

p("C34", "Descriptor sockets report every system failure as what it is",
  "A read, write, accept or descriptor transfer on a socket made from a descriptor fails exactly when the system refuses it. It is reported as would-block exactly when it would have blocked, and as an error otherwise. "
  "A refused operation hands nothing out, closes nothing and neither loses nor repeats data: what was on its way arrives intact when the operation is repeated. Every descriptor number the system may give, "
  "zero included, is served the same way.",
  ["inputs", "fault_sequences"], "all system errors at every call, all operations, descriptor numbers and data on its way",
  "No stable test makes a system call fail, uses a non-blocking socket directly or has descriptor zero free.",
  ["src/psock/psock_from_descriptor_read.c", "src/psock/psock_from_descriptor_write.c", "src/psock/psock_from_descriptor_accept.c", "src/psock/psock_from_descriptor_sendmsg.c", "src/psock/psock_from_descriptor_recvmsg.c",
   "src/psock/psock_read_raw.c", "src/psock/psock_read_raw_descriptor.c", "src/psock/psock_create_from_listen_address.c"],
  [("error translation", "src/psock/psock_from_descriptor_*.c")],
  ["injected system errors and real would-block conditions against a model of data under way"])

# ---------------------------------------------------------------- fibers
p("C26", "A fiber keeps its own execution state across every switch",
  "Whatever other fibers do between a fiber's yield and its next resumption, the fiber continues with its local variables, callee-saved registers, stack contents, and "
  "floating-point control settings exactly as they were, with the stack aligned as the platform ABI requires. Each fiber runs on its own stack of at least the requested size "
  "from its entry point, once, with the context it was given.",
  ["schedules", "programs"], "all interleavings of fibers, call depths and register contents at the switch",
  "No stable test runs a fiber; a wrong register save shows only when the compiler keeps live values in that register across a switch.",
  ["src/fiber/platform/sysv/x86_64/fiber_switch.s", "src/fiber/platform/sysv/x86_64/fiber_make.s", "src/fiber/common/fiber_entry.c", "src/fiber/common/fiber_create.c"],
  [("register save/restore", "fiber_switch.s"), ("initial frame", "fiber_make.s")],
  ["register probe around each yield (hand-written assembly), stack canaries, MXCSR/x87 control words"])

p("C27", "Scheduler resumes runnable fibers in order, each exactly once per enqueue",
  "Fibers are resumed in the order in which they became runnable, except those placed at the front, which run next (most recent first); every runnable fiber is resumed exactly once for each time it was queued. "
  "An added fiber runs after those already queued while its adder continues first. When none is runnable the idle fiber is resumed, and without one the run call reports "
  "exhaustion; a fiber's return marks it stopped and it is never resumed again. A user scheduler's refusal is reported to the operation that met it.",
  ["schedules", "programs", "histories"], "all fiber programs of adds, runs, yields, re-queueing, front-placing and returns, with and without an idle fiber",
  "No stable test runs the scheduler; ordering faults need particular sequences of queue operations.",
  ["src/fiber/common/fiber_scheduler_create_with_disciplines.c", "src/fiber/common/fiber_scheduler_add.c", "src/fiber/common/fiber_scheduler_run.c",
   "src/fiber/common/fiber_scheduler_yield.c", "src/fiber/common/disciplined_fiber_scheduler_set_next_fiber_to_run.c",
   "src/fiber/common/disciplined_fiber_scheduler_add_fiber_to_run_queue.c", "src/fiber/common/fiber_entry.c"],
  [("run queue", "fiber_scheduler_create_with_disciplines.c")],
  ["trace of resumptions with fiber ids compared online with a reference scheduler"],
  [("run queue", "fibers waiting to be resumed, with their pending event", "src/fiber/common/fiber_internal.h")])

p("C28", "Management requests and events reach the right fibers once",
  "A fiber waiting for management events is told of each fiber added and stopped while it waits, with that fiber's identity. A quiesce or terminate request to a waiting fiber resumes exactly "
  "that fiber, once, with exactly that request, before the requester continues; a request to all reaches every other running fiber, except one waiting for management events, exactly once and the requester continues last. "
  "A request to a fiber that is not running is refused, removing a fiber hands it to the caller exactly once, and an unexpected event goes to the affected fiber's handler.",
  ["schedules", "programs", "histories"], "all fiber programs mixing management waits, requests, removals and stops",
  "No stable test runs the scheduler.",
  ["src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c", "src/fiber/common/disciplined_fiber_scheduler_send_quiesce_request_to_all.c",
   "src/fiber/common/disciplined_fiber_scheduler_send_quiesce_request_to_fiber.c", "src/fiber/common/disciplined_fiber_scheduler_remove_fiber.c",
   "src/fiber/common/fiber_unexpected_event.c", "src/fiber/common/fiber_scheduler_create_with_disciplines.c"],
  [("management callbacks", "fiber_scheduler_create_with_disciplines.c, fiber_scheduler_management_discipline_definitions.c")],
  ["resume trace with event codes and parameters, compared with a reference model"])

p("C29", "Fiber disciplines are found by identity and dispatched to their own callbacks",
  "Each discipline added to a scheduler can be found by its identifier, and only by it, with its own context; adding a second with the same identifier is refused. A request made through a "
  "discipline invokes exactly the callback at that index with that discipline's context and the requesting fiber, whichever disciplines were added before or after it, and an index out of its range is rejected. "
  "Releasing the scheduler releases every discipline and context exactly once.",
  ["configurations", "histories"], "all sets, sizes and orders of disciplines and all request sequences",
  "No stable test runs the scheduler.",
  ["src/fiber/common/fiber_scheduler_discipline_add.c", "src/fiber/common/fiber_scheduler_discipline_find.c", "src/fiber/common/fiber_discipline_yield.c",
   "src/fiber/common/fiber_scheduler_discipline_create.c", "src/fiber/common/fiber_scheduler_discipline_context_get.c"],
  [("callback vector rebasing", "fiber_scheduler_discipline_add.c"), ("dispatch", "fiber_discipline_yield.c, fiber_scheduler_create_with_disciplines.c")],
  ["callback invocations logged with discipline id, index, context, fiber and parameter"])

p("C30", "Mailboxes deliver each message once, in order, to the right receiver",
  "Messages sent to one mailbox are received from it in the order sent, each exactly once, with payload and return address intact; a receive on an empty mailbox resumes only when a message arrives for that mailbox, "
  "and ownership of message and payload moves to the receiver. Distinct mailboxes never share an address or a message. Sending to or receiving from an address that does not exist fails, "
  "the message staying with the sender, and closing a mailbox releases its undelivered messages exactly once.",
  ["schedules", "programs", "histories"], "all numbers of fibers and mailboxes and all interleavings of create, send, receive, close and yield",
  "No stable test runs messaging.",
  ["src/message"],
  [("mailbox table and per-mailbox queue", "src/message/message_discipline_*_callback_handler.c")],
  ["send/receive history with unique message ids, checked against a mailbox model"],
  [("mailbox queue and blocked receiver", "undelivered messages; at most one waiting fiber", "src/message/message_internal.h")])

p("C31", "Fiber condition variables wake waiters first-in first-out, losing none",
  "Notifying one wakes exactly the longest-waiting fiber on that conditional, and notifying all wakes exactly the fibers then waiting, in waiting order; fibers waiting on other conditionals stay asleep. A "
  "notification with no waiter has no effect on later waits. Waits on and notifications of a conditional that does not exist fail, and closing one removes it.",
  ["schedules", "programs", "histories"], "all numbers of fibers and conditionals and all interleavings of create, wait, notify, close and yield",
  "No stable test runs fiber conditions.",
  ["src/condition"],
  [("wait lists", "src/condition/fiber/condition_discipline_*_callback_handler.c")],
  ["wait/notify/resume history checked against a model"])

p("C32", "With vtable enforcement on, forged dispatch tables are never called",
  "In builds with runtime dispatch-table enforcement, an object whose dispatch table does not come from the library's or program's registered table section is rejected with an error and none of its methods is invoked. Every object "
  "the library itself creates is accepted, so all operations behave as without enforcement.",
  ["inputs", "configurations"], "all object kinds with forged tables (heap, stack, adjacent to the section), and all ordinary API histories under enforcement",
  "The stable tests never build this configuration.",
  ["include/rcpr/vtable.h", "src/resource/resource_release.c", "src/resource/resource_vtable_read.c", "src/allocator/allocator_allocate.c", "src/psock/psock_read_block.c"],
  [("range check", "include/rcpr/vtable.h"), ("check before dispatch", "resource_release.c, allocator_*.c, psock_*.c")],
  ["status returned; counter in the forged methods"])

p("C35", "No result and no byte handed out depends on uninitialised memory",
  "Whatever valid calls a program makes, nothing the library decides, returns, stores for the caller or hands to the operating system (data, addresses, lengths, control messages) depends on memory "
  "that was never initialised, whatever a fresh block or a reused stack happens to contain. This includes every path on which an operation fails.",
  ["inputs", "histories", "fault_sequences"], "all ordinary API histories, failing ones included, over every previous content of memory",
  "Fresh memory is mostly zero in a short test run, so a missing initialisation passes there and fails in a long-lived process.",
  ["src/psock/psock_write_raw_descriptor.c", "src/psock/psock_read_raw_descriptor.c", "src/fiber/common/fiber_create.c", "src/bigint/bigint_create_zero.c", "src/list/list_create.c", "src/string/words.c"],
  [("clearing of fresh objects", "*_create.c"), ("system call arguments", "psock_from_descriptor_*.c, platform/epoll")],
  ["valgrind memcheck over the whole process: branches, addresses and system call arguments"])

p("C36", "Independent objects do not disturb each other",
  "The library keeps no hidden shared state: programs that share no object get exactly the results, callbacks and allocations each would get alone, whether threads run them at the same time or one thread works on them in turns "
  "(also from within allocator, comparison, release and socket callbacks), and threads working on separate objects never touch the same memory unsynchronised. Host-name lookup, which uses the C library's shared result, is not included.",
  ["schedules", "programs"], "all sets of programs over separate containers, strings, allocators, sockets, triggers and fiber schedulers, and all interleavings of them",
  "A test uses one object at a time in one thread, where a static buffer or a cached last object behaves correctly.",
  ["src/fiber/common/fiber_scheduler_create_with_disciplines.c", "src/psock/psock_write_raw_descriptor.c", "src/psock/platform/epoll/psock_idle_fiber_entry.c", "src/string/words.c", "src/message/message_discipline_get_or_create.c", "src/allocator/bump_allocator_create.c"],
  [("state in the object", "all of src"), ("iteration state in the iterator", "src/string/words.c, multisplit.c"), ("buffers on the stack", "psock_*_raw_descriptor.c, psock_*_boxed_*.c")],
  ["transcript of each program compared with its run alone", "ThreadSanitizer with fibers"])

p("C37", "What a long-lived program holds does not grow with use",
  "A sequence of operations that returns the objects involved to the state they were in (added entries removed or cleared, fibers ended, removed and released, mailboxes and conditionals closed, messages received, waits over, "
  "also those ended by a request, sockets and passed descriptors released or closed, memory reset or reclaimed) leaves nothing behind: however often it is repeated, the memory blocks, mappings and descriptors held on behalf of the "
  "objects that live on (container, scheduler, discipline, socket, allocator) do not grow, so a long-running program never runs out.",
  ["histories", "programs"], "all cycles of operations that end in the state they began in, repeated any number of times, over every kind of long-lived object",
  "Tests run an operation a few times and release everything; what is retained until the final release never shows.",
  ["src/fiber/common/fiber_scheduler_create_with_disciplines.c", "src/message/message_discipline_mailbox_close_callback_handler.c", "src/condition/conditional_wait.c", "src/psock/psock_create_wrap_async.c",
   "src/psock/platform/poll/psock_idle_fiber_entry.c", "src/rbtree/rbtree_delete_node.c", "src/queue/queue_pop.c"],
  [("removal from registries", "src/message, src/condition, src/fiber/common"), ("per-wait state", "src/psock/platform"), ("node release", "src/list, src/slist, src/queue, src/rbtree")],
  ["allocator, mapping and descriptor ledgers compared between early and late cycles"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
