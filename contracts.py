"""Which contract units decide which property; read by check.py and tools/mkmanifest.py."""
A_CLONE = "Clone of element values returns an equal value (assumed contract)"
A_EQ = "PartialEq of the element type is its mathematical equality relation eq_spec (vstd obeys_eq_spec)"
A_VEC = "std Vec / VecDeque / Option operations behave as specified by vstd (assumed contracts on the standard library)"
A_SRC = "polled sources follow the SignalVec contract (valid diffs; Pending means registered); lists are at most 2^60-1 long"
A_SIG = "polled sources follow the Signal / Stream / Future contract (a signal has a value on its first poll; Pending means registered)"
A_MAP = "std BTreeMap operations behave as a mathematical map iterated in ascending key order; Ord of the keys is a strict total order (assumed contracts)"
A_MSRC = "polled sources follow the SignalMap contract (valid diffs; Pending means registered)"
A_CB = "callbacks do not touch the combinator they are called from; their results are related to their arguments by an arbitrary relation (stateful closures allowed)"
A_PIN = "Pin<&mut T> is treated as &mut T replaced only through set(); pin_project's projection is re-generated by the extractor from the struct definition"
A_CHAN = "futures_channel::mpsc::unbounded: a successful unbounded_send appends the message, delivery is in order and complete, a failed send means the receiver was dropped (assumed contract); a sender is only used through the state which owns it"
A_FE = "futures_util stream::ForEach polls its stream until it ends, hands every item to the callback in order and awaits each returned future before the next item (assumed contract)"
A_SC = "atomic operations are sequentially consistent interleavings (the orderings used are required to be at least acquire / release, so that the handshakes are synchronised); other threads do anything the guarantee conditions of the same contracts allow (rely-guarantee; each step is proved to satisfy every other thread's rely)"
UNITS = {
 "mutable_vec": dict(assumptions=[A_VEC, A_CLONE, A_CHAN, A_PIN, "RwLockWriteGuard gives exclusive access to the state (DerefMut); Vec::retain asks once per element in order; Vec::drain's result is dropped, not leaked; Deref of the guard yields the values"]),
 "filter": dict(assumptions=[A_VEC, A_SRC, A_CB, A_PIN]),
 "map": dict(assumptions=[A_VEC, A_SRC, A_CB, A_PIN]),
 "chain": dict(assumptions=[A_VEC, A_SRC, A_PIN]),
 "sig_map": dict(assumptions=[A_SIG, A_CB, A_PIN, A_CLONE, A_EQ]),
 "sig_switch": dict(assumptions=[A_SIG, A_PIN]),
 "sig_switchc": dict(assumptions=[A_SIG, A_CB, A_PIN]),
 "sig_async": dict(assumptions=[A_SIG, A_CB, A_PIN]),
 "sig_sink": dict(assumptions=[A_SIG, A_CB, A_PIN, A_CLONE, A_EQ]),
 "sink_vec": dict(assumptions=[A_VEC, A_SRC, A_CB, A_PIN, A_FE]),
 "sink_map": dict(assumptions=[A_MAP, A_MSRC, A_CB, A_PIN, A_FE]),
 "sig_ref": dict(exp=True, assumptions=[A_SIG, A_CB, A_PIN, "map_ref!/map_mut! are verified through their expansions for 1, 2 and 3 sources in both syntaxes (rustc -Zunpretty=expanded of /verif/mapexp and of /repo); other arities follow the same macro rules"]),
 "flatten": dict(assumptions=[A_VEC, A_SRC, A_PIN, "inner signal vecs have not been polled before they enter the outer one", "the flattened list is at most 2^60-1 long (assume in poll_pending)", "poll_vec_change_unpin is Pin::new(self).poll_vec_change(cx)"]),
 "enumerate": dict(assumptions=[A_VEC, A_SRC, A_PIN, "Mutable's set / get / clone / read_only / new behave as a shared cell (their own property is C22); only enumerate holds writing handles of its cells; Mutable::replace_with(f) is read, f, set"]),
 "map_signal": dict(assumptions=[A_VEC, A_SRC, A_SIG, A_CB, A_PIN]),
 "filter_signal": dict(assumptions=[A_VEC, A_SRC, A_SIG, A_CB, A_PIN, A_CLONE]),
 "delay": dict(assumptions=[A_VEC, A_SRC, A_CB, A_PIN, "futures returned by the callback follow the Future contract and are not finished when they are handed over; the identity of a future is a constant"]),
 "sort": dict(assumptions=[A_VEC, A_SRC, A_PIN, A_CLONE, "the comparison callback computes one total preorder of the values", "slice::binary_search_by and slice::sort_unstable_by do what the standard library documents for a consistent comparison; the extractor evaluates their closure once per element / pair of elements beforehand"]),
 "sig_len": dict(assumptions=[A_VEC, A_SRC, A_CB, A_PIN, "Sum::sum is a function of the values in order (sum_of); a Move does not change the sum of a commutative Sum"]),
 "mutable_map": dict(assumptions=[A_MAP, A_CLONE, A_CHAN, A_PIN, "RwLockWriteGuard gives exclusive access to the state (DerefMut); BTreeMap::insert on an existing key keeps an equal key"]),
 "map_vals": dict(assumptions=[A_MAP, A_MSRC, A_CB, A_PIN]),
 "map_vsig": dict(assumptions=[A_MAP, A_MSRC, A_SIG, A_CB, A_PIN]),
 "btree_view": dict(assumptions=[A_VEC, A_PIN, A_CLONE, "the diffs of MutableSignalMap are valid and its Replace lists the entries in key order (the contract of C13)", "slice::binary_search of a sorted slice finds the key or its insertion point"]),
 "channel": dict(assumptions=[A_SC, A_PIN, "AtomicOption::{new, swap, store, take} are atomic exchanges of the whole content (unit atomic_option proves them over AtomicPtr)", "Weak::upgrade gives the state exactly while the Receiver exists; fewer than 2^64-1 Senders; a Sender is dropped, cloned and used by code which owns or borrows it (Rust's ownership): that is what `toks` counts"]),
 "atomic_option": dict(assumptions=[A_PIN, "Box::into_raw / from_raw and AtomicPtr do what their documentation says (ghost ownership of raw boxes); AtomicPtr::load is only used where the cell is given up (Drop)"]),
 "mutable": dict(assumptions=[A_SC, A_CLONE, A_EQ, A_CB, A_PIN, "RwLock and Mutex are not poisoned (nothing panics while they are held) and exclude each other as documented; Weak::upgrade of a ChangedWaker succeeds while its signal exists; fewer than 2^64-1 handles; a thread which holds a read or write guard of a Mutable does not lock it again (that dead locks by documentation); a handle is dropped, cloned and used by code which owns or borrows it; announcing a write (ghost step) happens where notify is called with has_changed"]),
 "broadcaster": dict(opts=["--smt-option", "smt.case_split=0"], assumptions=[A_SC, A_SIG, A_CB, A_CLONE, A_PIN, "RwLock and Mutex are not poisoned (nothing panics while they are held) and exclude each other as documented; Weak::upgrade of a ChangedWaker succeeds while its signal exists; futures_util::task::waker calls ArcWake::wake_by_ref of the notifier; Context::from_waker carries that waker; the source wakes the waker of its last poll at its next change after it (arming and changing are atomic for the source), and not from inside a lock of the Broadcaster; fewer than 2^64-1 changes"]),
 "mutable_swap": dict(assumptions=["RwLock excludes as documented; threads which wait only for locks of a higher address than all they hold do not dead lock; MutableLockState::notify tells every signal (proved in unit mutable); Arc::ptr_eq and as_ptr compare addresses"]),
 "cancel": dict(assumptions=[A_SC, A_SIG, A_PIN, "the mutex is not poisoned (nothing panics while it is held); Weak::upgrade gives the state exactly while the future exists; DiscardOnDrop calls discard once, when it is dropped; the handle is owned by one thread"]),
 "sig_vec": dict(assumptions=[A_SIG, A_SRC, A_CB, A_PIN]),
}
TECH = "contract-based deductive verification (Verus/Z3) of functions extracted from /repo on every run; search on the real code for failing inputs"
PROPS = {
 "C01": dict(units=["mutable_vec", "map"], level="proof", bounded=[], note="Every mutating method of MutableVecState and of the MutableVecLockMut write guard (pop, remove, clear, move_from_to, swap, retain, drain, truncate, reverse, push, insert, set, replace, extend, apply_vec_diff and the cloned forms), signal_vec(_cloned) and MutableSignalVec::poll_vec_change are proved to keep: what every subscriber has been sent are valid diffs which add up to the current contents, and the contents are what the operation promises."),
 "C02": dict(units=["map"], level="proof", bounded=[], note="VecDiff::apply_to_vec performs exactly the edit of the mathematical list semantics; VecDiff::map keeps kind, indices and order; proved for all inputs."),
 "C03": dict(units=["map"], level="proof", bounded=[], note="Map::poll_vec_change (VecDiff::map inlined) and the constructor are proved for all inputs."),
 "C04": dict(units=["filter"], level="proof", bounded=[], note="Filter::poll_vec_change, FilterMap::poll_vec_change (poll_filter_map inlined), find_index and the constructors are proved for all inputs."),
 "C05": dict(units=["sort"], level="proof", bounded=[], note="SortByCloned::poll_vec_change, binary_search, binary_search_insert, binary_search_remove, increment_indexes, decrement_indexes, insert_at, remove_at and the constructor are proved for all histories."),
 "C06": dict(units=["chain"], level="proof", bounded=[], note="Chain::poll_vec_change, every ChainProj::process_* helper and the constructor are proved for all histories."),
 "C07": dict(units=["flatten"], level="proof", bounded=[], note="Flatten::poll_vec_change, its nested start_of and push_removes, FlattenState::{new, update_len, poll, poll_values, poll_pending}, PendingBuilder and the constructor are proved for all histories."),
 "C08": dict(units=["enumerate"], level="proof", bounded=[], note="Enumerate::poll_vec_change (with its index shifting helpers inlined) and its constructor are proved for all histories, over a ghost heap of cells."),
 "C09": dict(units=["sig_len"], level="proof", bounded=[], note="poll_change of Len, IsEmpty, ToSignalMap, ToSignalCloned and SumSignal and their constructors are proved for all histories."),
 "C10": dict(units=["map_signal"], level="proof", bounded=[], note="MapSignal::poll_vec_change, PendingBuilder and the constructor are proved for all histories."),
 "C11": dict(units=["filter_signal"], level="proof", bounded=[], note="FilterSignalCloned::poll_vec_change, find_index, PendingBuilder and the constructor are proved for all histories."),
 "C12": dict(units=["delay"], level="proof", bounded=[], note="DelayRemove::poll_vec_change, remove_existing_futures, find_index, find_last_index, should_remove, remove_index, PendingBuilder and the constructor are proved for all histories."),
 "C13": dict(units=["mutable_map"], level="proof", bounded=[], note="Every method of MutableBTreeState (notify and notify_clone inlined), of the MutableBTreeMapLockMut write guard and MutableSignalMap::poll_map_change are proved to keep: what every subscriber has been sent are valid map diffs which add up to the current map, with Replace listing the entries in key order."),
 "C14": dict(units=["btree_view"], level="proof", bounded=[], note="poll_vec_change of MutableBTreeMapKeys and MutableBTreeMapEntries is proved for all histories."),
 "C15": dict(units=["map_vals", "map_vsig"], level="proof", bounded=[], note="MapValue (MapDiff::map inlined), MapWatchKeySignal, MapValueSignal with PendingBuilder and their constructors are proved for all histories."),
 "C16": dict(units=["sig_map"], level="proof", bounded=[], note="poll_change of Map (and the closure of not), Inspect, StopIf, Eq, Neq, DedupeMap, Dedupe, DedupeCloned, FilterMap, First, Always, ResultSignal, OptionSignal and their constructors are proved for all histories."),
 "C17": dict(units=["sig_ref"], level="proof", bounded=["map_ref!/map_mut! with more than 3 sources"], note="MapRef1 (new, poll, value_ref, value_mut, unsafe_pin), PollResult::merge, MapRefSignal and the expansions of map_ref!/map_mut! for 1 to 3 sources, and/or are proved for all histories."),
 "C18": dict(units=["sig_switch", "sig_switchc"], level="proof", bounded=[], note="Flatten::poll_change proved; Switch::poll_change proved against Flatten's and Map's contracts, with the constructor wiring."),
 "C19": dict(units=["sig_async"], level="proof", bounded=[], note="poll_change of FromFuture, FromStream, MapFuture and Throttle and their constructors are proved for all histories."),
 "C20": dict(units=["sig_sink", "sink_vec", "sink_map"], level="proof", bounded=[], note="SignalStream, SignalFuture, WaitFor, SampleStreamCloned, SignalSignalVec, SignalVecStream, SignalMapStream, the three ForEach sinks and their constructors are proved for all histories."),
 "C21": dict(units=["sig_vec"], level="proof", bounded=[], note="SwitchSignalVec::poll_vec_change and its constructor are proved for all histories."),
}
PROPS["C22"] = dict(units=["mutable", "mutable_swap"], level="proof", bounded=[], note="Every function of mutable.rs (ChangedWaker, MutableLockState, MutableSignalState, MutableLockMut and MutableLockRef, ReadOnlyMutable, Mutable with its Clone / Drop / From, and the three signals' poll_change; not Debug, serde and Default) is under contract; for a single thread the contracts are exact (`solo`), for others they hold in every interleaving. swap is proved to exchange the values under both locks, to take them in one global order and to tell both sets of signals.")
PROPS["C23"] = dict(units=["mutable", "mutable_swap"], level="proof", bounded=[], note="Proved for every interleaving of any number of threads, by rely-guarantee over a ghost state of one Mutable and one arbitrary signal of it: the value and its version, the list of signals, the changed flag, the stored task, the handle count, both locks and what every thread still owes.")
PROPS["C24"] = dict(units=["channel", "atomic_option"], level="proof", bounded=[], note="Every function of channel.rs (Inner::{has_senders, add_sender, remove_sender, remove_all_senders, notify}, Sender::{send, close, clone, drop}, Receiver::poll_change, channel) is proved for every interleaving with other threads, by rely-guarantee over a ghost state of the three cells; AtomicOption (atomic.rs) is proved to be an exchange which neither leaks nor frees twice.")
PROPS["C25"] = dict(units=["broadcaster"], level="proof", bounded=[], note="Every function of broadcaster.rs (BroadcasterNotifier, BroadcasterInnerState, BroadcasterSharedState::{new, poll}, BroadcasterState, Broadcaster with its Clone, the three signals' poll_change; not Debug) and the ChangedWaker of mutable.rs are proved for every interleaving of any number of threads, by rely-guarantee over a ghost state of the source, the flag, the lock, the list and one arbitrary signal; the inner poll functions are inlined into the three poll_change, because they take closures.")
PROPS["C26"] = dict(units=["cancel"], level="proof", bounded=[], note="CancelableFutureHandle::discard, CancelableFuture::poll and cancelable_future are proved for every interleaving, by rely-guarantee over a ghost state of the flag, the mutex and the stored task; lock guards are released where the language drops them.")
PROPS["C27"] = dict(units=[u for u in UNITS if u not in ("mutable", "mutable_swap", "mutable_vec", "mutable_map", "channel", "atomic_option")], only=r"precondition not satisfied.*(ended|done)\(\)", level="proof", bounded=[],
  note="Every poll of a source, in every combinator, sink and converter under contract, carries the obligation that the source has not reported its end; the functions which keep this true are proved for all histories. Failures of other obligations in a unit are left to the properties they belong to: such a unit is then undecided here.")
A_FIN = "a source makes only finitely many reports (ghost prophecy `left`: a poll never raises it, a report lowers it); for Broadcaster only the poll of its source is covered, locks and atomic operations are taken to return"
PROPS["C28"] = dict(units=["map", "filter", "sort", "chain", "flatten", "enumerate", "sig_len", "map_signal", "filter_signal", "delay", "btree_view", "map_vals", "map_vsig", "sig_map", "sig_async", "sig_sink", "sig_vec", "sig_switch", "sig_switchc", "broadcaster"], only=r"decreases not satisfied|spent\(", level="proof", bounded=[], assumptions=[A_FIN],
  note="Every loop of these units has a `decreases` clause: Verus proves that it ends, the loops which poll by the number of reports the source has yet to make. Every combinator over signal vecs and maps has a postcondition that a report lowers a well-founded measure (reports its source has yet to make, then those of the inner signals, then the queue). Signal combinators report what their exact contracts say, value by value (C16, C18, C19). Failures of other obligations in a unit are left to the properties they belong to.")
NOT_APPLICABLE = {}
