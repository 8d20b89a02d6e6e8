# generated by tools/props.py
CHECKS = {
    'P01': ('rwlock', 'run_exclusion', 'proof', 'Every atomic step of every public operation is extracted and compared with the specification automaton; interleavings are covered because each read may observe any value.'),
    'P02': ('rwlock', 'run_guard', 'proof', 'Typestate over all paths of scopes using guards, including unwind edges; copy/move/assignment instantiated where the type permits it.'),
    'P03': ('spin', 'run_mutex', 'proof', 'Both instantiations analysed; every access to the flag is classified.'),
    'P04': ('spin', 'run_until', 'proof', 'Six classes of timeout cover all values; the loop is brought to a fixpoint, so any number of polls is covered. Elapsed time is compared to a granularity of 1 ms.'),
    'P05': ('spin', 'run_once', 'proof', 'The invariant 0 <= count <= INT_MAX is shown inductive over all operations.'),
    'P06': ('b64', 'run_encode', 'proof', 'Every emitted character is traced to six input bits and compared with the alphabet; lengths are unbounded (loop invariant).'),
    'P07': ('b64', 'run_decode_all', 'proof', 'Soundness (accepted implies alphabet, padding and value) and completeness (no rejecting path from well-formed inputs) are both decided.'),
    'P08': ('uri', 'run_safe', 'proof', "libstdc++ assertions, library throw helpers and the source's own assertions are error locations; all are shown unreachable."),
    'P09': ('uri', 'run_split', 'proof', 'Texts with neither scheme nor leading delimiter are excluded from the statement.'),
    'P10': ('uri', 'run_alphabet', 'proof', 'Accepting paths must entail the alphabet of every component; every rejecting path must know an offending character inside its component.'),
    'P11': ('uri', 'run_auth', 'proof', "The text's scheme is one letter and the authority extends to its end; how the authority is cut out of the text is the decomposition property."),
    'P12': ('uri', 'run_encode', 'proof', 'iostream formatting state (base, fill, width, case) is tracked symbolically; any accumulation style the model knows (streams, append, +=, push_back) is accepted.'),
    'P13': ('uri', 'run_decode', 'proof', 'The number conversion (istringstream >> hex, from_chars, stoi, strtol or arithmetic) is modelled by its contract or evaluated on the digit values.'),
    'P14': ('urimemb', 'run', 'proof', 'Every special member x target shape x small/heap buffer x parsed/unparsed authority is analysed; destroyed buffers carry a dead mark, so a stale view is a definite mismatch. Texts whose middle parts are empty are covered by the shapes without authority only.'),
    'P15': ('uriquery', 'run', 'proof', 'decode() itself is property P13 and enters by its contract. Map ghost state follows copies, moves, swaps and clear().'),
    'P16': ('disruptor', 'run_sequence', 'proof', 'Stored value and arguments symbolic; every atomic access and its order is an obligation.'),
    'P17': ('disruptor', 'run_claim', 'proof', 'SIZE 8 and 1024, non-blocking and blocking wait strategy instantiated. SingleThreadedStrategy is analysed under its contract: one producer that publishes a claim before making the next.'),
    'P18': ('disruptor', 'run_publish', 'proof', 'Slot index and lap flag are compared with R and Q symbolically for SIZE 8 and 1024.'),
    'P19': ('ring', 'run_poll', 'proof', 'bool and void handlers, single and multi-producer rings. Contracts of getHighestPublishedSequence/getMinimumSequence are P18/P17.'),
    'P20': ('ring', 'run_ring', 'proof', 'RingBuffer<long, 8|1024> with both claim strategies.'),
    'P21': ('wait', 'run_wait', 'proof', 'NoWaitStrategy is documented not to wait and is excluded. Wake-up side for publish() is P18.'),
    'P22': ('batch', 'run_batch', 'proof', "User handlers are assumed not to throw the disruptor's own Alert/TimeoutException."),
    'P23': ('iobuf', 'run_write', 'proof', 'Strings and arrays up to 2^31-2 elements (the length is an int32), sizes up to 2^40; allocation is assumed to succeed. vector<bool> and containers of strings are not instantiated.'),
    'P24': ('iobuf', 'run_special', 'proof', 'Two objects with two unrelated symbolic resources; dynamic_cast outcomes are enumerated consistently. Which resource a copy uses is not prescribed.'),
    'P25': ('iobuf', 'run_read', 'proof', "The read of a number, or of a length field, at a position with fewer bytes left is not checked by get() itself and stays the caller's obligation (see DESIGN.md)."),
    'P26': ('setting', 'run_nonrt', 'proof', 'T is an opaque copyable type all of whose special members except the destructor may throw. One real-time thread, matched acquire/release.'),
    'P27': ('setting', 'run_rt', 'proof', 'T is an opaque copyable type. One real-time thread, matched acquire/release.'),
    'P28': ('affinity', 'run', 'proof', 'std::thread and calling-thread variants. CPU masks are compared bit by bit for all subsets of four requested CPUs and 0..4, 8 and 64 available CPUs, reported masks for all masks of up to three CPUs. Process names: the stream operations on /proc/<pid>/comm with open/not open as nondeterministic outcomes.'),
    'P29': ('rbac', 'run', 'proof', 'Token length up to 2^62.'),
    'P30': ('aggr', 'run', 'proof', 'No null handlers; handlers do not change the collection.'),
    'P31': ('topic', 'run', 'proof', 'Text length up to 2^62. The query is parsed by URI (P10-P13), which is not followed here.'),
}
