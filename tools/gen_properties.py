#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, **kw):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files)} for m in mechanism]}
    a.update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

H, S = "platform/sfw.h", "platform/sfw.cpp"

prop("C01", "Copied strings and vectors are independent values on every thread",
 "Copying a string or vector gives a value of its own: whatever any thread later does to one copy (write, append, insert, remove, resize, clear, overwrite, destroy), every other copy keeps exactly its contents. Each shared buffer and each element in it is released exactly once, when the last copy goes, and is never read or written after that. Threads working only on their own copies need no locking and never race.",
 ["schedules", "histories"], "every interleaving of threads holding copies of the same buffer, and every sequence of mutations on those copies",
 "The tests are single-threaded; a lost reference, a missed detach or a double release needs two owners at particular points of the detach/release protocol.",
 [H], ["copy-on-write buffer with an atomic reference count stored before the elements"])
prop("C02", "Pooled arrays stay independent and the pool's books balance",
 "Copies of a pooled array are independent values on every thread, a reader or writer handle stays valid for as long as it is held, and resizing or detaching under an open handle is refused or leaves that handle's view intact. (A copy made while a writer handle on the original is open may still see what is written through that handle.) When the last array and handle over a block go away the block and its accounting are returned exactly once, so slots in use and bytes in use always equal the sum over live blocks and return to zero. When no slot is left the operation reports it and every array keeps its contents. Changing what lies outside an array is refused with nothing changed. Searching, counting and taking parts answer as the contents say.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of copies, handles, resizes and releases across threads, including pool exhaustion and allocation failure",
 "Tests never share pooled arrays between threads, exhaust the pool or hold a handle across a resize.",
 [H, S], ["shared pool slots with reference and lock counts; free list and usage counters under one mutex"])
prop("C03", "Equal interned names are one entry that lives while anyone holds it",
 "At every moment two interned names compare equal exactly when their texts are equal, whichever threads created, copied and dropped them and in whatever order. The text of a held name never changes and stays readable, an entry disappears exactly once when its last holder drops it, and searching for a name that nobody holds finds nothing.",
 ["schedules", "histories"], "every interleaving of create, look up, copy, compare and drop of colliding and equal names on several threads",
 "The race between the last drop of a name and its re-creation needs a particular interleaving; tests run on one thread.",
 [H, S], ["global hash table of counted entries under one mutex"])
prop("C04", "A counted object is destroyed exactly once, right after its last owner",
 "An object managed through counted handles is alive while any handle to it exists, and is destroyed exactly once, immediately when the last handle on any thread is dropped, reassigned or destroyed. This holds for handles of base and derived type, for handles travelling inside generic values and containers, for self-assignment and for replacing a handle with one to the same object. The reported owner count always equals the number of handles.",
 ["schedules", "histories"], "every interleaving of copying, assigning, casting, boxing and dropping handles across threads",
 "Double or missing destruction depends on the interleaving of the final drops, which no test controls.",
 [H, S], ["atomic reference counts with initial-reference handling", "boxed handles inside generic values"])
prop("C05", "An object id finds its object while it lives and nothing afterwards",
 "Every live object has an id of its own, ids are never reused, and looking an id up returns that very object from construction until its destruction begins and nothing from the end of its destruction on. The registry holds exactly the live objects, on any thread.",
 ["schedules", "histories"], "every interleaving of construction, look-up and destruction of objects across threads",
 "Tests never look objects up by id; dangling results only show after the memory is reused or under a concurrent destruction.",
 [H, S], ["global id registry behind a readers-writer lock"])
prop("C06", "Atomic counters, flags and reference counts are linearizable",
 "Operations on a shared atomic number, flag or reference count made by several threads behave as if executed one at a time in an order that respects each thread's order, each returning the old or new value it documents. A reference count that has reached zero can never be raised again, exactly one thread is told it dropped the last reference, and the maximum-keeping update never loses a larger value. What a thread wrote before releasing or publishing is visible to the thread that acquires it.",
 ["schedules"], "every interleaving of every mix of the operations by two to four threads",
 "Single-threaded tests cannot see a lost update, a torn check-then-act or a missing ordering.",
 [H], ["std::atomic with acquire/release operations and compare-exchange loops"])
prop("C07", "Locks exclude, hand over, nest where promised and never get stuck",
 "While one thread holds an exclusive lock no other thread holds it in any mode; shared holders exclude only exclusive ones; the recursive lock may be taken again by its owner and is free only after as many releases. A failed try changes nothing and a try on a free lock succeeds, scoped lockers release on every exit, and whatever is written under a lock is visible to the next holder. Threads that always release what they take all get their turn.",
 ["schedules"], "every interleaving of lock, try, unlock and scoped sections by several threads over each kind of lock",
 "Exclusion is a statement about all interleavings; tests are single-threaded.",
 [H], ["wrappers over standard mutexes, a shared mutex and a test-and-set spin lock"])
prop("C08", "A started thread runs its function once, is joined once and has its own id",
 "Starting a thread runs the given function exactly once with the given argument, everything the starter did before is visible to it, and everything it did is visible to whoever waits for it. Each running thread, also one started by other means, has an id of its own, the id it sees for itself equals the one its handle reports, an unstarted or finished-and-waited handle reports none, and the main thread is the one that says so. A handle can be started again after being waited for, and its settings and cleanup callbacks run once on the thread itself.",
 ["schedules"], "every interleaving of start, query, wait and restart over several handles, including handles destroyed while running",
 "The id hand-over race between starter and started thread depends on which runs first.",
 [H, S], ["thread wrapper with a per-thread id and a global id hash"])
prop("C09", "Array and dictionary handles share one container; duplicates share none",
 "All copies of an array or dictionary handle see the same single container, which is destroyed with its contents exactly once when the last handle on any thread goes. A duplicate is equal at the moment it is made and independent afterwards, a deep duplicate at every nesting level of its values. A dictionary holds each key once, finds every key it holds and lists keys in the order they were first added.",
 ["schedules", "histories"], "every interleaving of handle copies and drops across threads, and every history of container operations by the owner",
 "Shared ownership across threads and long mixed histories are outside the handful of sequences tests run.",
 [S, H], ["counted private containers; insertion-ordered hash map"])
prop("C10", "Cell allocators hand out live cells once and keep their contents",
 "No two live allocations from a paged or handle-based pool ever overlap, each is aligned as the pool was asked to and keeps what its owner wrote until it is freed, through any growth, relocation or compaction caused by others, and freed space can be allocated again. Two threads using a thread-safe pool never receive the same cell and never lose one. Counts of used and free space always match the live allocations, and freeing everything lets the pool be reset.",
 ["schedules", "histories", "fault_sequences"], "every interleaving and history of allocate, resize, lock, free and compact, with out-of-space at any point",
 "Neither allocator is exercised by any test.",
 [H, S], ["page lists with a free stack under a spin lock", "compacting block table with handles"])
prop("C11", "A signal reaches each subscriber once, with the emitted arguments",
 "Emitting a signal calls every subscriber connected at that time exactly once, in connection order, with the emitter and arguments of that very emission; a disconnected subscriber is not called again and an unconnected one never. Each connection made counts as one subscriber and a disconnection ends the oldest matching one; a subscriber may connect, disconnect or emit from inside its call without another emission losing its arguments or a call being lost or repeated. Subscriptions are released with the signal.",
 ["histories"], "every history of connects, disconnects and emissions, nested to any depth inside callbacks",
 "No test emits a signal; nested emission histories are unbounded.",
 [S, H], ["per-signal connection list with argument array"])
prop("C12", "Collections hold what a model of them holds, in any history and on every thread",
 "After any history of operations each collection — linked list, ordered map and set, sorted-array map and set, hash maps and set (insertion-ordered, chained, open-addressed), growable arrays, ring buffer, text builders — holds exactly the elements that the same operations give on a simple model, in the order the collection promises, read from either end, by position, by key and by walking. A reference to an element of a list or map stays that element until it is erased itself. Every stored element is constructed once and destroyed once. Copies and conversions to other collections are independent of what they were made from; assigning replaces all that was there; assigning a collection to itself changes nothing; an operation may be given a reference into the collection itself. However bad the hash function, elements are found; ordered trees stay balanced. Separate collections may be used on separate threads at once, and a collection nobody changes may be read by any number.",
 ["histories", "schedules"], "every history of operations over elements that own memory, every hash function, every schedule of threads that own their collections",
 "Tests use the collections only incidentally; histories are unbounded.",
 [H, S], ["red-black trees with a global nil node, open addressing with robin hood and backward shift, chained hash tables, linked lists, ring buffer, growing arrays"])
prop("C13", "A generic value holds what was put in it, of any type and after any other",
 "A generic value has the type and contents of what was last put in it, for every type it can hold and whatever it held before: given anew, copied from another value or from itself, replaced by an element it holds itself, or by the sum of two values of which it is one. Values with storage of their own (texts, pooled arrays, geometry) are independent after a copy; lists, dictionaries and objects stay shared, and an object is known to be gone once it is destroyed. Setting and getting an element changes and gives exactly that element, counted from the end for negative indices, and is refused outside, and so does a named or numbered member of a geometry value, leaving the other members and copies alone; walking a value gives each element once in order; searching finds exactly what is there; equal values compare equal, have equal hashes and no other values compare equal; conversions between lists, pooled arrays and vectors keep every element; a value made zero is the default of its type or nothing. When the values are gone nothing they held is left. Threads that use values of their own need no locking, also when the values share what they hold.",
 ["histories", "schedules"], "every history of assignments between all types, every schedule of threads with values of their own",
 "A value's storage depends on the type it held before; thirty-six types give over a thousand transitions, and the tests use few.",
 [H, S], ["Variant: tagged union with in-place, boxed, shared and counted storage"])
prop("C14", "An object answers as its class, keeps its data, hears each notification once",
 "An object is an instance of its own class and of every class that one descends from and of no other: by name, by class identity and by cast. A property set is kept by the class of the object that knows it and read back the same, set or read on the object or through a value that holds it; the most derived class answers first when read, and a name no class knows is refused and changes nothing. Metadata is kept per object, an entry set to nothing is gone, and metadata taken over from another object is independent of it. Every notification reaches each class of the object that wants it exactly once, from the base class to the most derived one or the other way round as asked: one when the object is complete and one before it is deleted, and an object that refuses its deletion stays. A deleted object leaves nothing behind. Any number of threads may use objects of their own and read an object nobody changes.",
 ["histories", "schedules"], "every history of property, metadata, class, notification and deletion operations, every schedule of threads that own or only read their objects",
 "No test sets or reads a property, metadata or notification of an object.",
 [H, S], ["Object with per-class dispatch generated by the SFW_OBJECT macro", "names looked up through CoreStringNames"])
prop("M01", "Allocation accounting equals the live allocations exactly",
 "At every quiescent point the bytes in use that the library reports equal what its callers currently hold, the reported peak is the greatest usage reached, and a block handed out is usable in full, keeps its contents when resized and is handed back to the system exactly once. This holds across threads, for every mix of allocate, resize, array and object allocation and free, and when the system refuses memory.",
 ["schedules", "histories", "fault_sequences"], "every interleaving and history of allocations with system refusals at any point",
 "The counters are only meaningful over concurrent histories with failing allocations, which tests never produce.",
 [S, H], ["size header in front of every block and atomic usage counters"])
prop("M02", "Running out of memory is reported and destroys nothing",
 "When the system refuses memory in the middle of an operation that grows, detaches or resizes a string, vector or pooled array in place, the operation reports failure or has no effect, and every value the caller held before still has its exact previous contents. Nothing is written through a null or stale block, nothing is released twice, and the same operation succeeds when memory is available again.",
 ["fault_sequences", "histories"], "a refusal at each allocation point of every history of container operations",
 "Tests run with memory available; the refusal has to hit one allocation inside one operation.",
 [H, S], ["allocation through one static allocator; containers check its result"])
prop("F01", "What was written to a file is read back, value by value",
 "Every value stored through the typed writers (integers, floating point numbers, strings, lines, buffers, in either byte order) reads back identical through the matching reader at the same position, whatever the interleaving of reads, writes, seeks, flushes and reopenings, and however the system splits the transfers. Position, length and end-of-file always agree with a byte-array model of the file. Whole-file helpers return or store exactly the file's bytes.",
 ["histories", "inputs", "fault_sequences"], "every history of file operations in every open mode, with transfers split at any point",
 "No test touches the file layer except CSV loading of a few fixed data sets.",
 [S, H], ["buffered file access over the C library, with typed encoders and decoders"])
prop("F02", "A failed read is never passed off as data or as the end of a file",
 "When the system fails to open, read or seek a file, or delivers less than the file holds, the caller can tell: the operation's result, error state or end-of-file indication says so, and a whole-file read reports success only with the complete contents. Nothing beyond what was actually read is returned as file data. Every reading loop ends after a bounded number of steps even when every read fails.",
 ["fault_sequences", "inputs"], "an I/O error or premature end at every read call of every reading operation",
 "Disk errors do not happen in the test environment.",
 [S, H], ["error state kept per file object", "line, token and CSV readers looping until end of file"])
prop("F03", "A failed write is never passed off as a success",
 "If any byte handed to a file does not reach the file system (disk full, I/O error, failure while flushing or closing), the writer's error state or result says so no later than when the file is flushed or closed, and the whole-file write helpers report failure through their error result. When they report success the file holds exactly the data.",
 ["fault_sequences", "crash_points"], "a full disk, write error or flush/close error at every write call",
 "Write errors do not happen in the test environment, and buffered errors only show at flush or close.",
 [S, H], ["buffered writes whose errors surface at flush and close"])
prop("F04", "With safe saving on, the old file survives until the new one is whole",
 "With safe saving enabled, at every instant and after a process crash at any point the destination path holds either its complete previous contents or the complete new contents, never a mixture, a prefix or nothing. If writing, flushing or closing fails, the previous contents stay in place and the failure is signalled; a successful close leaves the new contents and no temporary file.",
 ["crash_points", "fault_sequences"], "a crash or an I/O failure at every system call of a save, over any previous state of the destination",
 "Needs a crash or write failure at a chosen system call between open and rename.",
 [S, H], ["write to a temporary sibling and rename over the destination on close"])
prop("F05", "CSV rows and text lines survive a write-read round trip",
 "A row of one or more text cells written as CSV is read back as the same cells, for every text (free of carriage returns and NULs) including delimiters, quotes, line breaks inside quotes, empty cells and non-ASCII characters and for every one-character delimiter other than a quote or line break, however the system splits the transfers; a line written as a line reads back as that line. Reading a file row by row yields exactly its rows in order and always terminates, including for malformed or truncated input.",
 ["inputs", "fault_sequences"], "every sequence of rows, any byte content, any truncation point, any transfer splitting",
 "Tests read a few fixed well-formed numeric CSV files.",
 [S, H], ["quote-counting CSV reader over a line reader"])
prop("F06", "A file or tree copy that reports success is byte-for-byte complete",
 "When a copy reports success the destination holds exactly the source's bytes (for a tree: every file and directory of the source, with contents) and the source is unchanged; when anything fails on either side the copy reports an error. Copying onto an existing file replaces it entirely, copying a file onto itself does not destroy it, files outside the destination are never touched, and the accessor's current directory is the same afterwards and nothing is left open or allocated.",
 ["fault_sequences", "inputs"], "any tree of files of any size, with open, read, write, close and mkdir failures at any call",
 "No test copies files, and a short or failed write in the middle of a copy needs fault injection.",
 [S, H], ["chunked copy loop over two file objects; recursive directory walk"])
prop("F07", "Recursive erase removes everything inside the directory, nothing outside",
 "Erasing a directory's contents recursively removes only entries below that directory, and never follows a link out of it. When it reports success the directory is empty; when an entry cannot be removed or listed it reports an error. The current directory of the accessor is the same afterwards and nothing is left open or allocated.",
 ["inputs", "fault_sequences"], "every tree shape including hidden entries, links to directories, and failures of listing, entering or removing at any call",
 "No test erases directories; links and failures half-way have to be constructed.",
 [S, H], ["depth-first walk with change-directory steps"])
prop("F08", "Directory operations tell the truth and leave the process where it was",
 "Making (also recursively), listing, renaming, removing, linking and testing for directories and files, their permissions and times, agree with a model file system: success means exactly the named effect happened, failure is reported and means nothing changed (only recursive making may leave parents it made), a link is removed itself rather than its target, and a listing yields every entry exactly once with its right kind or says that it is incomplete. No operation changes the working directory of the process, whatever fails in between, and operations on several threads do not disturb each other's working directory. Whatever fails, nothing is left open or allocated.",
 ["histories", "fault_sequences", "schedules"], "every history of directory operations on any tree, with any call failing, on one or two threads",
 "No test uses directories.",
 [S, H], ["directory accessor with a private current directory over process-wide calls"])
prop("F09", "Every descriptor and stream opened is closed exactly once",
 "Whatever sequence of files, directories, sockets and child processes is opened, reopened, closed or destroyed, and whichever of the calls fail, each operating-system handle the library obtained is released exactly once and never used afterwards, and none is left open when the owning objects are gone.",
 ["histories", "fault_sequences"], "every history of opening and closing with any system call failing",
 "Leaks and double closes on error paths are invisible to functional tests.",
 [S, H], ["owning wrappers closing in destructors and on reopen"])
prop("T01", "Elapsed time never runs backwards and sleeping lasts as long as asked",
 "Successive readings of elapsed time on a thread never decrease, advance by the real time that passes in every unit offered up to the resolution of the system's monotonic clock, and are not affected by changes of the wall clock. A sleep returns no earlier than the requested duration, however often it is interrupted, and not much later.",
 ["schedules", "fault_sequences"], "every sequence of readings and sleeps under clock jumps, coarse clocks and interruptions",
 "Wall-clock jumps and interrupted sleeps cannot be provoked in a test run.",
 [S, H], ["monotonic clock minus a start point; nanosleep"])
prop("P01", "A child process gets exactly its arguments and its full result comes back",
 "Starting a process runs exactly one child with exactly the configured program and arguments, unaltered whatever characters they contain; a blocking run returns only after the child ended, with its real exit code (not zero when it was killed or could not be run) and, when output is requested, its complete output (text in UTF-8), together with its error output when that was asked for and without it otherwise (which then goes nowhere). A non-blocking run can be polled to the end without losing, repeating or reordering output: every poll that succeeds delivers the next piece, until one reports the end. It reports running until the child ends; if the child cannot be created the start reports failure and nothing is left running, and the object can be used for the next process. Another thread that takes the pipe's lock reads only whole prefixes of the output.",
 ["inputs", "schedules", "fault_sequences"], "every argument list, child lifetime and output pattern, with creation failures, interrupted waits and split reads",
 "No test starts a process; the outcomes depend on the child's timing.",
 [S, H], ["popen and fork/exec/waitpid wrapper"])
prop("P02", "Stopping or dropping a process never hits anything but its own child",
 "Signals are sent only to a child this object started and that has not yet been collected, every child is collected exactly once, and after a child's end is known no later call signals or waits for its id again. Stopping a finished or never started process has no effect on any other process.",
 ["schedules", "histories"], "every interleaving of the child's end with queries, stops, restarts and destruction, with ids reused by the system at once",
 "Needs the child to exit between two particular calls and its id to be reused.",
 [S, H], ["stored child id cleared on stop; non-blocking wait used as liveness test"])
prop("N01", "Socket calls deliver the stream in order and report the real outcome",
 "Bytes sent on a connected socket arrive at the peer in order, once and unaltered up to the count the send reports, and a receive reports exactly what it delivered; end of stream and errors are distinguishable from data, and a peer that has gone is an error, never a signal. Open, bind, listen, accept and connect report success exactly when the system performed them, with the addresses and ports that were asked for: a loopback-only listener is reachable only through the loopback interface, an any-address listener through all; an address made from text that is no address is marked as unspecified. A socket that is closed or was never opened reports an error and touches no other descriptor. Copying an address gives an equal, independent address.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of two endpoints over a network that delays, splits, refuses and resets",
 "No test uses sockets.",
 [S, H], ["thin wrapper over BSD sockets with owned address storage"])
prop("I01", "A saved image is complete on disk and a failed load changes nothing",
 "When saving an 8-bit grey, grey-alpha, RGB or RGBA image as PNG or TGA, or an 8-bit grey, RGB or RGBA image as BMP, reports success, the file is complete once the call returns, decodes to exactly the image's pixels, and no handle stays open; when any part of a file of any format could not be written, the save reports an error. Loading a file that is missing, unreadable, not an image, or a PNG cut short is reported in the error log and leaves the image as it was; loading a file this library saved restores the pixels. Whatever the file contains, the image's data always has the size its dimensions and format call for, and what loading allocates is released.",
 ["inputs", "fault_sequences"], "every small image, format and file content, with I/O failures and truncation at any call",
 "No test saves or loads an image.",
 ["platform/image.cpp", S], ["encoder writing to memory then through the file layer; decoder fed from a whole-file read"])
prop("L01", "Splitting and batching a data set keeps every example with its label",
 "Whatever the random draws, splitting a data set into a training and a test part puts every example in exactly one part, together with its own label, the test part having the requested share rounded down. Cutting a data set into mini-batches puts every example with its own label in exactly one batch, in order, the examples that are left over going to the last batch, with no batch empty when there are enough examples. The original data set is not changed.",
 ["inputs", "histories"], "every data set size, share and batch count, under every random sequence",
 "Tests split and batch a handful of fixed sizes and only print or look at losses.",
 ["core/data.cpp", "core/utilities.cpp"], ["index shuffle and row copies; batch offset arithmetic"])
prop("L02", "Random initial weights are complete, finite and from the stated range",
 "Filling weights or biases with a chosen distribution writes every element, with finite values inside that distribution's stated range (for bounded distributions) or with its stated spread and zero mean (for normal ones), for every size and every random sequence, and different elements are independent draws. The number of inputs n is the number of rows of the weight matrix (the length of a weight vector), the number of outputs m its number of columns (1 for a vector): He draws with variance 2/n (uniform within the square root of 6/n), LeCun with variance 1/n (uniform within the square root of 3/n), Xavier with variance 2/(n+m) (uniform within the square root of 6/(n+m)), Uniform within plus or minus one over the square root of n, and the default uniformly from 0 to 1; biases are drawn from 0 to 1; matrices of Gaussian noise hold standard normal draws. No distribution is degenerate.",
 ["inputs", "configurations"], "every size and distribution kind under every random sequence and previous memory content",
 "Tests only see that training proceeds; they cannot tell a degenerate or partly unwritten initialisation from a bad draw.",
 ["core/utilities.cpp", "core/mlpp_matrix.cpp", "core/lin_alg.cpp"], ["standard generators seeded from the system entropy source"])
prop("L03", "Clustering assigns to the nearest centre and never increases its cost",
 "From any random start, after every training epoch each example belongs to exactly one cluster, one with a nearest centre of that epoch's assignment step, initial centres are examples of the data set, each non-empty cluster's centre is the mean of its examples after an update and an empty cluster's centre stays where it was, and the total cost never increases from epoch to epoch. Training ends after the requested number of epochs with finite centres, and queries return a centre nearest to the queried point.",
 ["inputs", "configurations"], "every small data set (including duplicates), cluster count, initialisation kind and random sequence",
 "The test runs one data set and prints; the outcome depends on time-seeded random starts it does not control.",
 ["modules/kmeans/kmeans.cpp"], ["Lloyd iteration with random or farthest-point start"])
prop("L04", "Training is a function of data, settings and random draws only",
 "Training any model twice from the same data, settings and sequence of random draws gives the same parameters and predictions bit for bit, whatever the contents of freshly allocated memory, the clock, and what was trained before. No result depends on memory that was never written.",
 ["inputs", "configurations"], "every model, training method and random sequence, under differing heap contents, addresses and clock values",
 "Reading uninitialised memory usually goes unnoticed in a test run because fresh memory happens to be zero.",
 ["modules", "core"], ["models seeded from the system entropy source over vectors and matrices with unfilled storage"])
prop("L05", "Training under any random draws ends on time, in bounds, inputs untouched",
 "Whatever the random draws, training any model on valid data ends within its epoch limit, picks only examples that exist, touches no memory outside its own, raises no internal error, leaves the training data exactly as given, and releases what it allocated. Stochastic methods can draw every example.",
 ["inputs", "configurations"], "every model and training method with any valid data-set size and random sequence, including extreme draws",
 "Tests train each model once from uncontrolled random draws; an off-by-one in a draw's range shows only for particular draws.",
 ["modules", "core"], ["per-epoch random index draws into the data set; mini-batches"])
prop("L08", "What a model learned survives being asked and training in portions",
 "Predicting and scoring ask and change nothing: the same question to a trained model gives the same answer bit for bit, draws no random number (models that generate from noise excepted), and leaves the next training step and prediction as they would have been. An example predicted alone gets the value it gets in a set. For methods that keep no running state, training in any portions gives the model that training all epochs at once gives.",
 ["inputs", "configurations", "histories"], "every model, method, shape, activation and sequence of train, predict and score calls, under every random draw",
 "Tests train once and predict once; an answer that overwrites a layer's input or a shared buffer shows only in the next step.",
 ["modules", "core"], ["models keep layers, inputs and predictions between calls and share them by reference"])
prop("L09", "From any random start training never leaves a model worse on its data",
 "Whatever the random start and order of examples, training with a small rate on labels a model of that form can produce does not raise the loss on the training examples, for every gradient-based model and training method; the convex ones (linear, logistic, softmax) come substantially closer to the labels given enough epochs.",
 ["inputs", "configurations"], "every model, method and layer activation, every small data set, random start and sequence of draws",
 "Tests print predictions for one uncontrolled start; a step with a wrong sign or the wrong rows still trains and prints something.",
 ["modules", "core"], ["gradient, stochastic, mini-batch and adaptive optimisers over hand-written gradients"])
prop("L10", "Vectors, matrices and tensors hold exactly what each operation says",
 "After any history of operations a vector, matrix or tensor has exactly the shape and elements that the operations' definitions give: element-wise arithmetic, products, transposes, inverses, determinants, adding, removing, swapping and reading rows and slices, conversions to and from lists, bytes and images. The in-place, new-result and into-a-target forms of one operation agree, also when the target is an operand or both operands are one object. Operands that are not targets are unchanged, objects made from others are independent of them, operands of the wrong size or missing are refused with nothing changed, and no memory outside the elements is touched or lost. Operands that nobody changes may be read by any number of threads at once.",
 ["histories", "schedules", "inputs"], "every history over every shape including empty ones, every aliasing of operands and targets, every schedule of readers of shared operands",
 "Tests compare a few results of fixed operands; aliasing, empty shapes and histories are not tried.",
 ["core/mlpp_vector.cpp", "core/mlpp_matrix.cpp", "core/mlpp_tensor3.cpp"], ["reference-counted objects over one contiguous block with in-place, copying and into-target forms of each operation"])
prop("L06", "A data set is loaded exactly as in the file or the load reports failure",
 "Loading a CSV data set yields one example per row, in order, with every number as in the file, whether or not the file ends with a line break and however reads are split; empty lines are no rows, and columns beyond those the data set has are ignored. A missing or unreadable file, and a file with a row that has too few columns (or, where columns come in pairs, an odd number of them) or a cell that is not a number, is reported, never crashes or hangs, and leaves the data set empty or as it was: examples are never invented.",
 ["inputs", "fault_sequences"], "every table size and number format, any truncation or corruption point, read errors at any call",
 "The data-set tests use fixed intact files (absent in this environment).",
 ["core/data.cpp", S], ["row loop over the CSV reader indexing a fixed number of columns"])
prop("L07", "Saved model parameters are complete in the file, appended or replaced",
 "Saving parameters writes every weight and bias, in order and readable back to the printed precision, replacing the file or appending after its previous contents exactly as asked, for every shape and layer number. When the file cannot be opened or written completely the call prints an error.",
 ["inputs", "fault_sequences"], "every parameter shape and call sequence, with open and write failures at any call",
 "Tests save nothing that is read back.",
 ["core/utilities.cpp"], ["C++ output file streams"])
prop("R01", "Seeded generators reproduce, stay in bounds and shuffles are permutations",
 "Two generators given the same seed and state produce the same sequence on any thread, a restored state continues it, and a re-seeded generator starts it again. Different seeds give different sequences. Every bounded integer draw lies within its inclusive bounds, in either argument order and however far apart they are, and every value in range can occur; real-valued draws lie within their bounds up to rounding. A shuffle is a permutation of its input and every order is equally likely. Randomising takes its seed from the clock, so generators randomised at different times (a microsecond apart or more) differ.",
 ["inputs", "configurations", "histories"], "every seed, bound and history of draws, with any clock reading",
 "Tests draw a few values from one seed.",
 [S, H], ["permuted congruential generator with bounded-draw rejection"])
# ---- listed, decided not applicable for this technique
prop("X01", "Singular value, QR and Cholesky decompositions and curve helpers are exact",
 "The decompositions of a matrix multiply back to it, their factors are orthogonal or triangular as defined, and the least-squares and vector-calculus helpers built on them satisfy their defining equations within rounding for every well-conditioned operand.",
 ["inputs"], "every operand of matching size", "Tests compare a few fixed operands.",
 ["core/lin_alg.cpp", "core/mlpp_matrix.cpp"], ["iterations over dense loops"])
prop("X02", "Activations and their derivatives agree for every input",
 "Every activation function and its derivative compute the documented formula for every finite input, in scalar, vector and matrix form alike.",
 ["inputs"], "every finite input", "Tests print values for a few inputs.", ["core/activation.cpp"], ["element-wise formulas"])
prop("X03", "Costs, regularisers and gradients agree with finite differences",
 "Every cost and regularisation gradient equals the derivative of the matching cost for every valid input.",
 ["inputs"], "every valid prediction and target", "Tests evaluate single points.", ["core/cost.cpp", "core/reg.cpp", "core/numerical_analysis.cpp"], ["element-wise formulas"])
prop("X04", "Statistics and transforms compute their definitions",
 "Means, variances, quantiles, correlation, convolution, pooling and frequency transforms equal their mathematical definitions for every input.",
 ["inputs"], "every input series", "Tests use fixed series.", ["core/stat.cpp", "core/convolutions.cpp", "core/transforms.cpp"], ["loops over vectors"])
prop("X05", "Text parsing and number formatting round-trip",
 "Parsing what was formatted gives the same number, and text operations (split, replace, case, UTF-8) equal their definitions for every text.",
 ["inputs"], "every text and number", "Tests do not cover them.", [S], ["pure string routines"])
prop("X07", "Image format conversion and resampling follow their definitions",
 "Converting, resizing, flipping and blending images gives the documented pixel values for every image.",
 ["inputs"], "every image", "No tests.", ["platform/image.cpp"], ["pixel loops"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
