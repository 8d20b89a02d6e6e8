RWL = "src/core/include/ReaderWriterLock.hpp"; SPW = "src/core/include/SpinWait.hpp"; B64 = "src/majordomo/include/majordomo/base64pp.hpp"
AI = "abstract interpretation of the compiler IR"

prop("P01", "Readers and writers never hold a ReaderWriterLock at the same time",
 "A reader is admitted only while no writer holds the lock and a writer only while no reader holds it, under every interleaving of any number of threads; each acquisition is undone by exactly one matching release, lock() blocks until it has actually acquired, tryLock() acquires exactly when it reports success (and always succeeds when nobody opposes it), and value()/the returned count report the holders without changing them. Acquisition and release order memory, so data guarded by the lock is visible to the next opposing holder.",
 ["schedules", "histories"], "all interleavings of lock/tryLock/unlock/value calls of any number of readers and writers, all lock-word values",
 "The tests run a few threads for a moment; an interleaving that lets a reader in beside a writer may never occur there.",
 [RWL], ["compare-exchange admission test on the counter", "sign of the counter encodes who holds the lock"],
 "rwlock", "run_exclusion", AI + ": transition extraction of the atomic lock word under an adversarial environment", "proof",
 "Every atomic step of every public operation is extracted and compared with the specification automaton; interleavings are covered because each read may observe any value.",
 state=["the 64-bit lock word"], observe=["return values of lock/tryLock/unlock/value"])
prop("P02", "A scoped reader/writer guard holds the lock exactly for its scope",
 "While a scoped guard is alive the lock is held in its mode, and when the scope is left - normally, by early return or by an exception - it has been released exactly once. Guards cannot be duplicated into a second release, and a tryLock that reports failure leaves the lock as it was.",
 ["schedules", "programs"], "every exit of a scope holding a guard, including exceptional ones, and every way of copying or moving a guard",
 "Tests only leave guarded scopes normally and count afterwards; the exceptional exits and misuse by copy are not exercised.",
 [RWL], ["RAII constructor/destructor pair"], "rwlock", "run_guard", AI + ": lock typestate along normal and unwinding exits", "proof",
 "Typestate over all paths of scopes using guards, including unwind edges; copy/move/assignment instantiated where the type permits it.")
prop("P03", "AtomicMutex admits one holder at a time",
 "AtomicMutex::lock() returns only after the calling thread itself changed the mutex from free to taken in a single atomic step, so at most one thread is between lock() and unlock(); unlock() frees the mutex. Everything written before unlock() is visible to the thread whose lock() succeeds next.",
 ["schedules"], "all interleavings of lock()/unlock() of any number of threads, with and without a spin-wait policy",
 "The test takes the lock from two threads a few thousand times; a non-atomic test/set window or a missing ordering is practically never hit.",
 [SPW], ["test-and-set with acquire, clear with release"], "spin", "run_mutex", AI + ": flag typestate under an adversarial environment", "proof",
 "Both instantiations analysed; every access to the flag is classified.")
prop("P04", "spinUntil() reports success iff the condition held, and honours its timeout",
 "spinUntil() returns true only if the condition was true when last evaluated and false only if it was false; without a timeout (-1) it never gives up, with timeout 0 it polls without waiting, with a positive timeout it gives up, only after that many milliseconds of monotonic time, and does not keep waiting once they have elapsed. Timeouts below -1 are rejected with an exception and no valid timeout raises one.",
 ["schedules", "inputs"], "all timeout values, all sequences of condition values and clock readings",
 "Tests use two or three timeout values and conditions that are constant; timing outcomes are not asserted for the others.",
 [SPW], ["spin loop with clock check"], "spin", "run_until", AI + " with a relational domain (condition adversarial, clock monotone)", "proof",
 "Six classes of timeout cover all values; the loop is brought to a fixpoint, so any number of polls is covered. Elapsed time is compared to a granularity of 1 ms.")
prop("P05", "spinOnce() is well defined for any number of calls and eventually yields the CPU",
 "For every number of preceding calls spinOnce() stays within defined behaviour (no oversized shift, no counter overflow), advances the count by one per call, and once nextSpinWillYield() is true each call gives up the processor by yielding or sleeping. reset() starts over from zero.",
 ["histories"], "all counter values from 0 to INT_MAX", "Tests call it a handful of times; counter values near the limits need billions of calls.",
 [SPW], ["spin counter with wrap-around at INT_MAX"], "spin", "run_once", AI + ": inductive interval invariant of the counter", "proof",
 "The invariant 0 <= count <= INT_MAX is shown inductive over all operations.")
prop("P06", "base64 encoding is RFC 4648 for every input",
 "For every byte sequence the encoder produces the RFC 4648 base64 text: every group of three bytes becomes the four alphabet characters of its 24 bits, a trailing one or two bytes become a padded group, nothing is dropped, repeated or read beyond the input, and the empty input gives the empty text.",
 ["inputs"], "all byte sequences of all lengths", "Tests compare a dozen short literals; they do not touch most alphabet entries, byte values or lengths.",
 [B64], ["triplet loop with tail handling", "encode table"], "b64", "run_encode", AI + ": bit-provenance and relational loop invariant against the RFC 4648 spec", "proof",
 "Every emitted character is traced to six input bits and compared with the alphabet; lengths are unbounded (loop invariant).")
prop("P07", "base64 decoding accepts exactly well-formed text and inverts the encoding",
 "decode() returns a value exactly for texts whose length is a multiple of four, which consist of alphabet characters and end in at most two '=' signs, and the value is the byte sequence those characters encode, so decode(encode(x)) == x. Any other text, whatever bytes it contains, yields no value; no character outside the text is ever read.",
 ["inputs"], "all character sequences of all lengths, including non-ASCII bytes", "Tests sample a few valid and invalid literals; single wrong table entries, bytes just outside the alphabet ranges or misplaced padding are not sampled.",
 [B64], ["validation loop", "decode table", "padding cases"], "b64", "run_decode_all", AI + ": region facts from the validation loop, table inversion, bounds", "proof",
 "Soundness (accepted implies alphabet, padding and value) and completeness (no rejecting path from well-formed inputs) are both decided.")

URI = "src/core/include/URI.hpp"
prop("P08", "Constructing a URI from any text and reading its components is memory safe and fails only with URISyntaxException",
 "For every text, constructing URI<STRICT> or URI<RELAXED> from it either succeeds or (STRICT only) throws URISyntaxException; no position outside the text is read, no std::out_of_range or other foreign exception is thrown, and the component accessors (str, scheme, authority, path, queryParam, fragment) of the result never fail and only look into the URI's own buffer.",
 ["inputs"], "all texts of all lengths, including empty, one-character and malformed ones", "Tests parse a few dozen well-formed texts; off-by-one positions only show for texts that end right behind a delimiter.",
 [URI], ["offset arithmetic with find_first_of/min/substr"], "uri", "run_safe", AI + " with a relational (zone) domain over text positions and byte-set facts", "proof",
 "libstdc++ assertions, library throw helpers and the source's own assertions are error locations; all are shown unreachable.")
prop("P09", "A URI decomposes into exactly the components its delimiters define",
 "For every accepted text that starts with a scheme (a ':' before any '/', '?' or '#') or with '/', '?' or '#', the accessors return exactly these parts, absent if empty: scheme - everything before that ':'; authority - what follows '//' directly behind the scheme up to the next '/', '?', '#' or the end; path - what follows up to the first '?' or '#'; queryParam - between that '?' and the next '#'; fragment - everything behind that '#'. A text starting with '/' has neither scheme nor authority. str() is the unchanged text.",
 ["inputs"], "all texts of all lengths, both check policies", "Tests compare a few literals; the boundary combinations (missing parts, delimiters inside later parts, empty parts) are not sampled.",
 [URI], ["parseURI"], "uri", "run_split", AI + " (string-position domain); result compared with a declarative decomposition by case split", "proof",
 "Texts with neither scheme nor leading delimiter are excluded from the statement.")
prop("P10", "URI<STRICT> accepts exactly the permitted characters, URI<RELAXED> accepts everything",
 "URI<STRICT> throws exactly for those texts that contain a character outside the RFC 3986 set (letters, digits and -._~:/?#[]@!$&'()*+,;=%), or whose scheme has a non-alphanumeric character, whose authority has a character other than letters, digits and @:.-_*[], or whose path has a character other than letters, digits and /.-_ (components as in the decomposition property); URI<RELAXED> never throws.",
 ["inputs"], "all texts of all lengths and all byte values", "Tests check single illegal characters in one position; they do not combine characters, positions and components.",
 [URI], ["find_first_not_of / all_of validation"], "uri", "run_alphabet", AI + ": byte-set region facts for acceptance, witness positions for rejection", "proof",
 "Accepting paths must entail the alphabet of every component; every rejecting path must know an offending character inside its component.")
prop("P11", "The authority splits into user, password, host and port, in any access order",
 "For every text x://AUTHORITY: if AUTHORITY contains '@', user is what precedes the first ':' of the part before the first '@' (or all of it), password what follows that ':', and the host part starts behind the '@'; otherwise user and password are absent and the host part is all of it. hostName is the host part up to its first ':' (or all of it), and port is the number the complete text behind that ':' denotes, absent if that text is missing, not completely a decimal number or exceeds 65535. The results do not depend on which accessor is called first or how often, and no accessor throws or terminates.",
 ["inputs", "histories"], "all authorities of all lengths, forward, reversed and repeated access orders", "Tests use a handful of authorities with the parts in canonical form.",
 [URI], ["parseAuthority, lazily evaluated and cached"], "uri", "run_auth", AI + " (string-position domain); from_chars contract", "proof",
 "The text's scheme is one letter and the authority extends to its end; how the authority is cut out of the text is the decomposition property.")
prop("P12", "URI::encode percent-encodes every text losslessly",
 "For every byte sequence URI::encode returns the concatenation, in order, of one piece per byte: the byte itself if it is an RFC 3986 unreserved character (letters, digits, '-', '.', '_', '~'), otherwise '%' followed by exactly two upper-case hexadecimal digits of its unsigned value. No byte is dropped, repeated or widened, nothing outside the input is read and encode never throws.",
 ["inputs"], "all byte sequences of all lengths, including control characters and bytes above 127", "Tests encode two literals; values below 16 (fill), above 127 (sign) and most reserved characters are not sampled.",
 [URI], ["URI::encode, isUnreserved"], "uri", "run_encode", AI + ": loop invariant 'output so far is the specified image of the prefix read so far'; each emitted piece enumerated against the specification over all byte values", "proof",
 "iostream formatting state (base, fill, width, case) is tracked symbolically; any accumulation style the model knows (streams, append, +=, push_back) is accepted.")
prop("P13", "URI::decode inverts the percent encoding and handles malformed escapes without misreading",
 "For every text URI::decode returns the text with every '%' that is followed by two hexadecimal digits (either case) replaced, with those digits, by the byte they denote and all other characters unchanged, so decode(encode(x)) == x. A '%' that is not followed by two hexadecimal digits makes URI<STRICT>::decode throw URISyntaxException, and only that does; URI<RELAXED>::decode keeps such a '%' as it is. No position outside the text is read and no other exception is raised.",
 ["inputs"], "all texts of all lengths, including truncated and malformed escapes", "Tests decode a few literals with well-formed escapes.",
 [URI], ["URI::decode"], "uri", "run_decode", AI + ": same loop invariant, escapes enumerated over all digit pairs", "proof",
 "The number conversion (istringstream >> hex, from_chars, stoi, strtol or arithmetic) is modelled by its contract or evaluated on the digit values.")

prop("P14", "Copied, moved and assigned URIs describe their own text",
 "A URI that was copy- or move-constructed, copy- or move-assigned (also onto a URI of a different text, before or after its authority was parsed, and onto itself) returns the text of its source from str(), and each accessor (scheme, authority, user, password, hostName, port, path, queryParam, fragment) returns the corresponding part of that text, also after the source has been destroyed; a moved-from URI that is still alive remains consistent with whatever its str() returns. No accessor ever reads the buffer of another or of a destroyed URI.",
 ["programs", "histories", "inputs"], "all texts of the canonical shapes (all parts present, scheme+path+query+fragment, path only), short (in-object) and long (heap) texts, authority parsed before or not", "Tests copy one or two literals and keep the source alive; dangling views usually still show the old characters.",
 [URI], ["views into the owned buffer re-based on copy; swap on move; small-string optimisation"], "urimemb", "run", AI + ": ownership of string buffers (small and heap), pointer provenance of every view", "proof",
 "Every special member x target shape x small/heap buffer x parsed/unparsed authority is analysed; destroyed buffers carry a dead mark, so a stale view is a definite mismatch. Texts whose middle parts are empty are covered by the shapes without authority only.")

prop("P15", "queryParamMap() holds exactly the decoded parameters of the URI's own query",
 "For every URI text ?QUERY, queryParamMap() maps, for each part of the query between ';' or '&' separators, the percent-decoded text before the first '=' of the part to the percent-decoded text behind it; a part without '=' maps to no value (std::nullopt; an empty value text may be reported as no value or as an empty text; an empty part may be stored under the empty key or skipped); if a key occurs again, the last occurrence counts; nothing else is in the map. URI<STRICT> throws URISyntaxException exactly for queries with a character outside letters, digits and -._~&;=%:/ (or, from decoding, a malformed escape), URI<RELAXED> never. The result is the same on every call - also after an earlier call ended with an exception, and for a URI that was copied or moved onto from one with other parameters already parsed.",
 ["inputs", "histories"], "all query texts of all lengths, repeated calls, calls after an exception, after copy and move assignment", "Tests parse a few queries once; the last parameter, escapes in keys, repeated keys, partial results after an exception and stale maps after assignment are not sampled.",
 [URI], ["queryParamMap, lazily filled and cached in a mutable member"], "uriquery", "run", AI + ": loop invariant 'the map holds the specified parameters of the query prefix read so far'; map operations as specification events; unwinding edges of decode()", "proof",
 "decode() itself is property P13 and enters by its contract. Map ghost state follows copies, moves, swaps and clear().")

DS = "src/disruptor/include/disruptor/Sequence.hpp"; DC = "src/disruptor/include/disruptor/ClaimStrategy.hpp"; DR = "src/disruptor/include/disruptor/RingBuffer.hpp"
prop("P16", "Sequence operations are single atomic steps with publishing memory order",
 "A Sequence starts at -1 (or at the given value). value() returns the stored value with acquire order; setValue() stores its argument with release order; compareAndSet(e, n) replaces the value by n and returns true exactly if it equals e (it never fails spuriously), otherwise it changes nothing; incrementAndGet() and addAndGet(k) add 1 or k in one atomic read-modify-write step and return the new value. No update of a concurrent thread can be lost, and what a thread wrote before an update is visible to a thread that reads the updated value.",
 ["schedules", "inputs"], "all stored values, arguments and interleavings", "Tests call each operation once per thread without contention; lost updates and missing memory ordering do not show on the test machine.",
 [DS], ["std::atomic with explicit memory orders"], "disruptor", "run_sequence", AI + ": symbolic interpretation of each operation, atomic steps and orders extracted", "proof",
 "Stored value and arguments symbolic; every atomic access and its order is an obligation.")
prop("P17", "A producer never claims a ring-buffer slot that a gating consumer has not released",
 "For both claim strategies (single and multiple producers) next(n) and tryNext(n) grant the sequences up to s only if every gating sequence has reached s - SIZE by the time of the grant, under every interleaving with consumers and other producers; claims are contiguous and disjoint (each grant extends the previous one by exactly n, in one atomic step when there are several producers). next() waits only while the slots are not all free, tryNext() throws NoCapacityException only then and claims nothing in that case, hasAvailableCapacity() answers accordingly and getRemainingCapacity() is SIZE minus the claimed, unreleased slots. getMinimumSequence() never returns more than the value any of its sequences has when it returns.",
 ["schedules", "histories"], "all positions of producers and consumers, all interleavings, all n from 1 to SIZE-1, any number of gating sequences", "Tests run one or two consumers with little contention; the cached minimum and the window between reading the gating sequences and claiming are hardly ever exercised.",
 [DC, DS], ["wrap point compared with cached minimum of the gating sequences", "compare-and-set on the cursor"], "disruptor", "run_claim", AI + ": inductive invariant 'every cached minimum is a lower bound of the gating sequences'; adversarial cursor and consumers", "proof",
 "SIZE 8 and 1024, non-blocking and blocking wait strategy instantiated. SingleThreadedStrategy is analysed under its contract: one producer that publishes a claim before making the next.", state=["_nextValue, _cachedValue, _gatingSequenceCache, cursor"], observe=["return values and exceptions of next/tryNext/hasAvailableCapacity/getRemainingCapacity"])
prop("P18", "An event becomes available exactly when it is published, completely written",
 "isAvailable(s) is true exactly if s was published (single producer: s is not above the cursor; several producers: the flag of slot s mod SIZE names s and not an earlier or later lap), a new ring has no available event, publish(s) makes exactly s available in one release store after which sleeping consumers of a blocking strategy are woken without a lost wake-up, and the consumer side reads with acquire order so that everything written before publish(s) is visible. getHighestPublishedSequence(lo, hi) returns the largest sequence up to hi such that all of lo..result are available (less than lo if hi < lo).",
 ["schedules", "histories"], "all sequences below 2^31*SIZE, all laps, all sets of published sequences", "Tests publish in order and consume immediately; out-of-order publication by several producers, later laps and ordering on weakly ordered machines are not sampled.",
 [DC], ["availability flag per slot (sequence div SIZE)", "cursor release/acquire"], "disruptor", "run_publish", AI + ": symbolic sequence q = SIZE*Q + R, atomic orders, loop invariant over the availability scan", "proof",
 "Slot index and lap flag are compared with R and Q symbolically for SIZE 8 and 1024.")
DW = "src/disruptor/include/disruptor/WaitStrategy.hpp"; DP = "src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp"; DB = "src/disruptor/include/disruptor/BatchEventProcessor.hpp"
prop("P19", "An event poller hands over every available event once, in order, and never an unpublished one",
 "EventPoller::poll() calls the handler with the sequences own+1, own+2, ... without gap or repetition, each with its own event; only with sequences that are published and that all gating sequences have passed; with the end-of-batch flag exactly for the last available one; and stops before the next event when a bool handler returns false. Unless it stopped, everything available when the call began is handed over. On return, and also when the handler throws (the exception reaches the caller), the poller's own sequence is the last event whose handler call completed, so a later poll resumes right behind it. The result is Processing if events were handed over, else Gating if the cursor is beyond the own sequence, else Idle.",
 ["inputs", "histories", "schedules"], "all own/gating/cursor positions, all published sets, handlers that stop or throw at any event", "Tests poll a few prefilled events with one handler; exceptions in the middle of a batch, stopping, slow gating sequences and out-of-order publication are not combined.",
 [DR], ["poll loop, _lastAvailableSequence shortcut"], "ring", "run_poll", AI + ": loop invariant over the poll loop with symbolic published frontier and gating minimum; exceptional edges of the handler", "proof",
 "bool and void handlers, single and multi-producer rings. Contracts of getHighestPublishedSequence/getMinimumSequence are P18/P17.")
prop("P20", "The ring buffer claims, fills and publishes exactly the same slot, whatever the translator does",
 "publishEvent() claims one slot, invokes the translator once with the event and sequence of that slot and publishes that sequence once afterwards - also if the translator throws, so that no claimed slot stays unpublished and blocks all consumers. tryPublishEvent() does the same and returns true, or returns false without invoking the translator or publishing when there is no capacity, and never waits. The slot of sequence s lies inside the buffer, two sequences share a slot exactly if they differ by a multiple of SIZE, and next/tryNext/hasAvailableCapacity/getRemainingCapacity/publish/isAvailable/isPublished/getHighestPublishedSequence/getMinimumGatingSequence/cursor answer with the ring's own claim strategy, gating sequences, cursor and the caller's arguments.",
 ["inputs", "histories"], "all sequences, translators that throw any exception, full and non-full rings", "Tests publish with well-behaved translators at small sequence numbers; a throwing translator, capacity exceptions thrown by the translator itself and large sequences are not sampled.",
 [DR], ["translateAndPublish", "operator[] index mask and padding"], "ring", "run_ring", AI + " + typestate claim/translate/publish over normal and exceptional paths, symbolic slot addressing", "proof",
 "RingBuffer<long, 8|1024> with both claim strategies.")
prop("P21", "Waiting consumers get what they asked for, notice alerts, and miss no wake-up",
 "waitFor(s) of the Blocking, BusySpin, Sleeping, SpinWait, TimeoutBlocking and Yielding wait strategies returns only a sequence that is at least s and that every dependent sequence has passed. Blocking strategies go to sleep only with the mutex held and after having seen, with the mutex held, that the cursor is below s and no alert is pending; they check the alert again after every wake-up and in every polling round; they do not hold the mutex while waiting for other consumers, nor after return or exception; a timeout is reported only after the wait timed out, and a wait that timed out while the sequence is still missing is reported, not repeated. signalAllWhenBlocking() acquires the mutex before it wakes all. A sequence barrier's alert flag is atomic; alert() sets it and then wakes all sleepers, clearAlert() clears it, isAlerted()/checkAlert() report it; waitFor() reports a pending alert before waiting, waits on the barrier's own cursor and all dependent sequences it was constructed with, and returns a sequence at or above s only if everything from s up to it is published.",
 ["schedules", "inputs"], "all interleavings of waiting, publishing and alerting threads; all sequence positions", "A lost wake-up or a missed alert needs an exact interleaving that tests do not produce; they only wait for events that are already there.",
 [DW, DP], ["cursor and alert check under the mutex before condition_variable wait", "checkAlert in polling loops"], "wait", "run_wait", AI + " + typestate of mutex, checks and sleep; loop invariants for the polling loops", "proof",
 "NoWaitStrategy is documented not to wait and is excluded. Wake-up side for publish() is P18.")
prop("P22", "A batch event processor handles every event once, in order, and survives failing handlers",
 "BatchEventProcessor::run() calls onEvent with own+1, own+2, ... without gap or repetition, each with its own event, only up to what the barrier reported available and with the end-of-batch flag exactly for the last of these. If onEvent throws an exception derived from std::exception, the exception handler - if one was set - is told this exception, sequence and event, and the processor goes on with the next event. The processor's own sequence (which releases slots to producers) never runs ahead of the events handled, never goes back, and is up to date whenever the processor waits and when it ends. A timeout is reported to the timeout handler, if any, with the own sequence. run() refuses with an exception if already running, ends exactly when an alert arrives after halt() (an alert alone does not end it), notifies start and shutdown once, and afterwards can be run again; halt() clears the running flag and alerts the barrier.",
 ["histories", "schedules", "inputs"], "all positions, batch sizes, failing handlers, timeouts and alerts in any order", "Tests run a few events with a handler that succeeds; failures in the middle of a batch, timeouts and alerts without halt are not combined.",
 [DB], ["run() loop with three catch clauses"], "batch", "run_batch", AI + ": nested loop invariants; exceptions dispatched by type along landing pads; typestate running/alerted/halted", "proof",
 "User handlers are assumed not to throw the disruptor's own Alert/TimeoutException.")
IOB = "src/serialiser/include/IoBuffer.hpp"
prop("P23", "Writing to an IoBuffer appends exactly the encoded value and never leaves the allocated memory",
 "From every reachable state (any content, size, capacity, memory resource, also without memory) put() of bool, integers and floating-point numbers appends their bytes in native order; put() of a string appends an int32 with its length + 1, its characters and a zero byte, put<WITHOUT>() its characters only; put() of a vector or array of numbers appends an int32 with the number of elements and the elements' bytes. The bytes written before stay as they are, size() grows by exactly what was appended, the read position is kept, nothing is written or read outside the allocated block, and no memory is lost, released twice or used after release when the buffer grows. reserve(), reserve_spare(), resize(), shrink_to_fit(), clear() and reset() keep the content up to the new size, give at least the capacity asked for, and leave size() <= capacity().",
 ["inputs", "histories"], "all buffer states (size, capacity, position, with and without memory, any memory resource), all values and lengths", "Tests write a few values into fresh buffers; growth exactly at the capacity limit, other memory resources and the content after growth are not sampled.",
 [IOB], ["reserve_spare/reserve/reallocate growth policy", "put overloads"], "iobuf", "run_write", AI + ": inductive class invariant with a ghost heap (blocks, owner, provenance of every byte range), symbolic size/capacity/length", "proof",
 "Strings and arrays up to 2^31-2 elements (the length is an int32), sizes up to 2^40; allocation is assumed to succeed. vector<bool> and containers of strings are not instantiated.", state=["_buffer, _position, _size, _capacity, _allocator"])
prop("P24", "IoBuffers own their memory: copies are independent, moves leave a usable object, release goes through the right resource",
 "After construction (from a capacity, from data, around existing memory), copy, move, copy assignment, move assignment (also to itself) and destruction of IoBuffers with any memory resources: each block of memory is released exactly once, with the size it was allocated with and through the memory resource it came from - memory merely wrapped is never handed to another resource; a copy has its own memory with the same content, size and position and its source is unchanged; a moved-to object has the source's content, size and position, and the moved-from object is a valid object whose size and capacity describe the memory it has, so that it can be used again.",
 ["histories", "inputs"], "all pairs of object states and memory resources, self assignment, later use of moved-from objects", "Tests copy and move buffers of the default resource and look at the target only; mixed resources, wrapped memory and reuse of the source are not sampled.",
 [IOB], ["copy/move constructors, swap, freeInternalBuffer"], "iobuf", "run_special", AI + ": ownership typestate over a ghost heap with the owning resource of every block", "proof",
 "Two objects with two unrelated symbolic resources; dynamic_cast outcomes are enumerated consistently. Which resource a copy uses is not prescribed.", state=["_buffer, _position, _size, _capacity, _allocator"])
prop("P25", "Reading from an IoBuffer returns what is stored and never leaves its content",
 "With the position inside the content, get<T>() of a number (whose bytes are there) returns the bytes at the position and advances by sizeof(T). get<std::string>()/get<std::string_view>() and getArray() of a vector of numbers (whose 4-byte length field is there) return, when the announced data is there, exactly the characters or elements behind the length field and advance behind them; when the length field announces more than there is, or is negative, they stay inside the content - nothing outside [0, size()) is read and the position does not pass size(). skip() moves the position if the target is inside [0, size()] and otherwise throws std::out_of_range and leaves it; at<R>() refers to the element at the index if all of it lies inside the content, else throws; asString() returns the requested range or throws. Reading changes neither content nor size.",
 ["inputs"], "all contents (all length fields, also malformed and negative ones), positions, indices, sizes and negative arguments", "Tests read back what they wrote; announced lengths beyond the end or below zero, as a broken or hostile peer sends them, are not sampled.",
 [IOB], ["extractStringView, getArray, skip, at, asString"], "iobuf", "run_read", AI + ": symbolic content and length field, relational bounds", "proof",
 "The read of a number, or of a length field, at a position with fewer bytes left is not checked by get() itself and stays the caller's obligation (see DESIGN.md).")
BS = "src/disruptor/include/BasicSetting.hpp"
prop("P26", "A non-real-time mutable setting: edits are published whole, never under the real-time thread's feet",
 "BasicSetting<T, NonRealTimeMutable>: between acquire and release (or in the scope of a guard) the real-time thread uses one complete value that is neither changed nor destroyed meanwhile, and after its release exactly that object is available again. Non-real-time threads edit a private copy of the current value, one thread at a time (no update is lost), and release()/replace()/end of the guarded scope publishes the edited value as a whole in one atomic step, only when the real-time thread is not using the old one; the old value is then destroyed once and the next access of either side sees the new one. The real-time side uses no mutex, no memory management and no waiting loop. If copying the value throws, the mutex is released and the setting is unchanged; guards acquire and release exactly once on every exit.",
 ["schedules", "histories"], "all interleavings of one real-time and any number of non-real-time threads, all exits of guarded scopes, failing copies", "Tests use the setting from one thread; a release racing with a real-time access, the order of publication and destruction, and throwing copies need exact interleavings or faults.",
 [BS], ["exchange(nullptr)/store by the real-time side", "compare-exchange loop of nonRealtimeRelease", "_nonRealtimeLock"], "setting", "run_nonrt", AI + ": ownership typestate over value objects; adversarial observation of the shared pointer; exceptional paths", "proof",
 "T is an opaque copyable type all of whose special members except the destructor may throw. One real-time thread, matched acquire/release.", state=["_storage, _storagePtr, _rtStorageCopy, _rtStorageCopyPtr, _nonRealtimeLock"], observe=["references returned by acquire/guards, values seen"])
prop("P27", "A real-time mutable setting: readers get the newest complete value and never one being written",
 "BasicSetting<T, RealTimeMutable>: release()/replace() of the real-time thread (or the end of its guarded scope) makes its value available to non-real-time threads in one atomic step, after it was written completely into a slot no reader has been handed, and keeps it as the value of the next real-time access. acquire<NonRealTime>() returns the newest value completely released before, with the readers' mutex held until release; the two slots are exchanged only while the real-time thread is not writing, and only if there is new data. The real-time side uses no mutex, no memory management and no waiting loop. All slots start with the initial value; destruction waits until the real-time thread has left.",
 ["schedules", "histories"], "all interleavings of one real-time and any number of non-real-time threads, all values of the control word", "Tests use the setting from one thread; reading while the real-time thread writes, and replace followed by other accesses, are not sampled.",
 [BS], ["control word with index/busy/new-data bits", "compare-exchange loop of nonRealtimeAcquire"], "setting", "run_rt", AI + ": enumeration of all control-word values under an adversarial partner, content provenance of the slots", "proof",
 "T is an opaque copyable type. One real-time thread, matched acquire/release.", state=["control, data, realtimeCopy, nonRealtimeLock"], observe=["references returned by acquire/guards, values seen"])
TA = "src/core/include/ThreadAffinity.hpp"
prop("P28", "Thread and process settings are applied to exactly the designated target, or refused with a usable error",
 "getThreadName/setThreadName, get/setThreadAffinity, get/setProcessAffinity, get/setThreadSchedulingParameter and get/setProcessSchedulingParameter act on exactly the given thread or process (the calling one if none is given), with the requested name (as a NUL-terminated text), CPUs, policy and priority, and setters act once. An uninitialised thread (no native handle) or a pid <= 0 is refused with std::system_error and code THREAD_UNINITIALISED without calling the OS for it; a priority outside of the range the OS reports for the requested policy is refused with THREAD_VALUE_RANGE before anything is changed, any other is passed on. A failure the OS reports is not swallowed but thrown as std::system_error with the OS's code (setThreadName: negative codes only); the error's category stays valid for as long as the exception is used. Getters return what the OS reports: policies other than OTHER, FIFO and ROUND_ROBIN as UNKNOWN, affinity as one flag per CPU. getProcessName/setProcessName use /proc/<pid>/comm of exactly the given process: the first line of it is returned (\"unknown_process\" if it cannot be opened), the first 15 characters of the name are written, and a file that cannot be opened is reported with std::system_error and THREAD_UNINITIALISED.",
 ["inputs", "faults"], "all handles and pids, all OS return codes, all policies and priorities, all names", "Tests ask for what succeeds on the build machine; OS failures, invalid handles, priority limits of other policies and what the error object refers to are not sampled.",
 [TA], ["handle == 0 / pid <= 0 guards", "sched_get_priority_min/max range check", "rc checks, thread_exception()"], "affinity", "run", AI + ": OS calls as nondeterministic outcomes, symbolic target/policy/priority/return code, provenance of the text and of the error category", "proof",
 "std::thread and calling-thread variants. CPU masks are compared bit by bit for all subsets of four requested CPUs and 0..4, 8 and 64 available CPUs, reported masks for all masks of up to three CPUs. Process names: the stream operations on /proc/<pid>/comm with open/not open as nondeterministic outcomes.", observe=["OS calls and their arguments, return values, exceptions"])
RB = "src/majordomo/include/majordomo/Rbac.hpp"
prop("P29", "Role and hash of an RBAC token are its own, and malformed tokens grant no role",
 "For every token, parse_rbac::role(), hash() and roleAndHash() return the text between the prefix \"RBAC=\" and the first comma, and the text after that comma, as views into the token; a token without the exact prefix or without a comma yields an empty role and an empty hash, never a part of it. No token - of any length, with or without further commas or binary content - makes them read outside of the token or throw (they are noexcept, an exception would end the program).",
 ["inputs"], "all tokens", "Tests parse a few well-formed tokens; truncated prefixes, commas in unusual places and empty parts come from remote peers.",
 [RB], ["starts_with(RBAC_PREFIX), find(','), substr"], "rbac", "run", AI + ": symbolic token split by length, first mismatch with the prefix and position of the first comma; libstdc++ range assertions as obligations", "proof",
 "Token length up to 2^62.")
DA = "src/disruptor/include/disruptor/AggregateEventHandler.hpp"
prop("P30", "An aggregate event handler passes every event and lifecycle change to each of its handlers, once and in order",
 "AggregateEventHandler: onEvent() calls onEvent of every handler of the collection exactly once, in the order of the collection, with the same event, sequence and end-of-batch flag; onStart() and onShutdown() notify, in order and once, exactly those handlers that have the lifecycle interface (and none is skipped or dereferenced without it).",
 ["inputs", "histories"], "any number of handlers, with and without lifecycle interface, in any arrangement", "Tests use collections of two or three handlers that all have the lifecycle interface.",
 [DA], ["loops over _eventHandlers, dynamic_pointer_cast<ILifecycleAware>"], "aggr", "run", AI + ": loop invariant over a vector of symbolic length with a ghost counter of handlers notified", "proof",
 "No null handlers; handlers do not change the collection.")
TP = "src/core/include/Topic.hpp"
prop("P31", "Topics carry a valid, normalised service name, or are refused",
 "mdp::isValidServiceName(s) is true exactly if s begins with a slash, has at least one more character, does not end with a slash and consists of ASCII letters, digits, '.', '_' and '/' only. Topic::fromString(s) has as its service exactly the part of s in front of the first '?' (all of s if there is none) without trailing slashes and with a slash put in front if it has none; it throws exactly if that is not a valid service name (for s without query). Topic::fromZmqTopic(s) does the same after removing one '#' from the end of s, if there is one. So equivalent spellings give the same service and no topic with an invalid service can exist.",
 ["inputs"], "all texts", "Tests normalise a handful of names; invalid characters at particular positions, runs of trailing slashes and empty names come from clients.",
 [TP], ["isValidServiceName", "Topic::parseService, constructor"], "topic", "run", AI + ": symbolic text split by its query, trailing slashes, first, last and one invalid character", "proof",
 "Text length up to 2^62. The query is parsed by URI (P10-P13), which is not followed here.")
