#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json
SV, SM, SG, MU, CH, BR, FU, AT, MA = ("src/signal_vec.rs","src/signal_map.rs","src/signal/signal.rs","src/signal/mutable.rs",
   "src/signal/channel.rs","src/signal/broadcaster.rs","src/future.rs","src/atomic.rs","src/signal/macros.rs")
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
H=["inputs","histories"]
p("C01","MutableVec edits behave like Vec edits and reach every subscriber",
 "Every editing operation of a MutableVec (push, insert, set, remove, pop, move, swap, reverse, retain, drain, truncate, clear, replace, extend, applying a diff) leaves the contents a plain Vec would have after the same edit. Every signal vec created from it, whenever it was created, receives a sequence of diffs that are each valid for the contents at that point and that, applied in order to an empty Vec, give exactly the current contents. A subscriber that went away never disturbs the contents or the other subscribers.",
 H,"every element type, every starting contents, every sequence of edits with every index/range, every set of subscribers attached and dropped at any point",
 "The tests run a few fixed edit scripts on vectors of a handful of elements; they cannot cover all index combinations, all range forms or all histories of subscribing and editing.",
 [SV],[("MutableVecState and its mutators, notify/notify_with","src/signal_vec.rs: mod mutable_vec, impl MutableVecState"),("MutableVecLockMut operations","src/signal_vec.rs: impl MutableVecLockMut")],
 [("values","current contents","MutableVecState"),("senders","live subscribers","MutableVecState")],["diffs polled from signal_vec()/signal_vec_cloned()","lock_ref() contents"])
p("C02","Applying a VecDiff has exact list-edit semantics",
 "Applying any VecDiff that is valid for a list (Replace, InsertAt, UpdateAt, RemoveAt, Move, Push, Pop, Clear) performs exactly that one list edit and touches no other element. Transforming the values carried by a diff keeps its kind, its indices and the order of its values.",
 ["inputs"],"every diff kind, index, value and list contents",
 "The tests apply a few diffs to short lists; the claim is for all lists and indices.",
 [SV],[("VecDiff::apply_to_vec","src/signal_vec.rs: impl VecDiff"),("VecDiff::map","src/signal_vec.rs: impl VecDiff"),("MutableVecLockMut::apply_vec_diff","src/signal_vec.rs: mod mutable_vec")],(),["the Vec after apply_to_vec"])
p("C03","SignalVec map is order-preserving and calls the closure once per value",
 "A mapped signal vec always equals the element-wise image of its source in the same order: it forwards one diff for each source diff, of the same kind and at the same position. The mapping closure runs exactly once for each value that enters the source, and never for removals or moves.",
 H,"every source, every sequence of source diffs, every closure (including stateful ones)",
 "Tests feed one scripted source; nothing checks the exactly-once guarantee over all histories.",
 [SV],[("Map::poll_vec_change","src/signal_vec.rs: impl SignalVec for Map"),("VecDiff::map","src/signal_vec.rs: impl VecDiff")],(),["diffs of map()","closure calls"])
p("C04","filter and filter_map hold exactly the accepted values, in source order",
 "At every moment the contents rebuilt from the diffs of a filtered (or filter-mapped) signal vec are exactly the accepted values of the source in source order, and every emitted diff is valid for the contents rebuilt so far. The closure is called exactly once per value that enters the source. It reports the end only when the source has ended, and goes idle only after the source has gone idle with the current task registered.",
 H,"every source, every sequence of valid source diffs (including moves across rejected elements), every predicate",
 "The index translation depends on how many accepted elements precede each index after each edit; tests script a few sequences, and some diff kinds have no test at all.",
 [SV],[("poll_filter_map / find_index","src/signal_vec.rs"),("Filter, FilterMap","src/signal_vec.rs")],[("indexes","which source elements were accepted","Filter / FilterMap")],["diffs of filter(), filter_map()"])
p("C05","sort_by_cloned output is always the stable sort of its source",
 "For any comparison function that consistently computes one total preorder of the values, the contents rebuilt from the diffs of a sorted signal vec always equal the stable sort of the source contents, and each emitted diff is valid at that point. When one source change needs two diffs, the second follows before anything else. It never panics on a valid source.",
 H,"every source contents, every diff sequence, every consistent comparator (ties included)",
 "Ties, moves among equal elements and updates that relocate an element multiply the cases far beyond the scripted tests.",
 [SV],[("SortByCloned::poll_vec_change, binary_search*, increment_indexes, decrement_indexes, insert_at, remove_at","src/signal_vec.rs")],
 [("indexes","source positions in sorted order","SortByCloned"),("values","copy of the source","SortByCloned"),("pending","second half of a two-diff change","SortByCloned")],["diffs of sort_by_cloned()"])
p("C06","chain is always the concatenation of its two sources",
 "Whenever the output of a chained signal vec is fully drained, the contents rebuilt from its diffs are the contents of the left source followed by those of the right source, and every emitted diff is valid when emitted. It ends exactly when both sources have ended. It goes idle only when every source that has not ended is registered to wake the current task.",
 H,"every pair of sources and every interleaving of their diffs, including Replace, Clear, Pop and Push on either side with the other side empty or not",
 "The offset arithmetic and the queued diffs depend on both lengths and on the interleaving; tests run a couple of scripted pairs.",
 [SV],[("Chain::poll_vec_change and ChainProj::process_*","src/signal_vec.rs")],[("left_len/right_len","emitted length of each side","Chain"),("pending","queued diffs","Chain")],["diffs of chain()"])
p("C07","Flattening a SignalVec of SignalVecs keeps the exact concatenation",
 "Whenever the output of a flattened signal vec is fully drained, the contents rebuilt from its diffs are the concatenation, in outer order, of the contents of the inner signal vecs, and every emitted diff is valid when emitted. This holds when inner signal vecs are inserted, replaced, moved or removed as well as when they change. It ends only when the outer and all inner signal vecs have ended, and goes idle only when all that have not ended are registered to wake the task.",
 H,"every outer diff sequence, every inner diff sequence, every interleaving",
 "Tests cover an outer vector that only grows; offsets depend on the lengths of all earlier inner vectors under arbitrary edits.",
 [SV],[("Flatten::poll_vec_change, FlattenState","src/signal_vec.rs")],[("inner","one state per inner vec with its emitted length","Flatten"),("pending","queued diffs","Flatten")],["diffs of flatten()"])
p("C08","enumerate keeps every element's index signal equal to its position",
 "The output of enumerate mirrors the source diff for diff, and after each poll the index signal handed out with each element holds exactly that element's current position. The index signal of an element that was removed holds None. No other index signal is changed to a wrong value by any insert, removal, move, replace or clear.",
 H,"every source diff sequence",
 "Each edit shifts a range of indices; tests look at a few scripted edits.",
 [SV],[("Enumerate::poll_vec_change","src/signal_vec.rs")],[("mutables","index cell of each element","Enumerate")],["ReadOnlyMutable values"])
p("C09","len, is_empty, sum and to_signal_map track the source exactly",
 "Each value reported by len, is_empty, to_signal_map, to_signal_cloned and sum is the length, emptiness, mapped contents, contents or sum (of a type whose addition is commutative) of everything the source has reported so far, and the first poll always reports a value. After going idle the last reported value is up to date, and is_empty reports only changes. They end only after the source has ended and the last value was reported, and go idle only with the source registered to wake the task.",
 H,"every source diff sequence and every split of it between polls",
 "Which diffs are batched into one poll decides what is reported; tests use one fixed split.",
 [SV],[("Len, IsEmpty, SumSignal, ToSignalMap, ToSignalCloned poll_change","src/signal_vec.rs")],(),["values of the resulting signals"])
p("C10","map_signal reflects the latest value of every element's signal",
 "Whenever the output of map_signal is fully drained, the contents rebuilt from its diffs are, in source order, the latest value of each element's own signal, and every emitted diff is valid when emitted. It ends only when the source and every live element signal have ended. It goes idle only when the source and all element signals that have not ended are registered to wake the task.",
 H,"every source diff sequence, every behaviour of the element signals, every interleaving",
 "Element signals change, end and move independently; tests script one or two elements.",
 [SV],[("MapSignal::poll_vec_change, PendingBuilder","src/signal_vec.rs")],[("signals","one optional signal per source element","MapSignal"),("pending","queued diffs","MapSignal")],["diffs of map_signal()"])
p("C11","filter_signal_cloned shows exactly the elements whose signal is true",
 "Whenever the output of filter_signal_cloned is fully drained, the contents rebuilt from its diffs are exactly those source values whose own boolean signal is currently true, in source order, and every emitted diff is valid when emitted. It ends only when the source and every live element signal have ended. It goes idle only when everything that has not ended is registered to wake the task.",
 H,"every source diff sequence, every behaviour of the boolean signals, every interleaving",
 "The visible index of an element depends on the current truth of all earlier ones; several branches are marked as untested in the source.",
 [SV],[("FilterSignalCloned::poll_vec_change / find_index","src/signal_vec.rs")],[("signals","signal, value and visibility of each source element","FilterSignalCloned")],["diffs of filter_signal_cloned()"])
p("C12","delay_remove keeps removed elements until their future completes",
 "Whenever the output of delay_remove is fully drained, it contains all source elements in source order plus only removed elements whose removal future has not completed, and every emitted diff is valid when emitted. An element leaves the output only after it left the source and its own future completed. It ends only when the source has ended and no removal is outstanding, and goes idle only with the source and all outstanding removal futures registered to wake the task. A removal future is created when its element appears and runs only once the element was removed; an element replaced by an update of the source is replaced at once.",
 H,"every source diff sequence, every completion order of the removal futures",
 "The index translation has to skip any number of lingering elements anywhere; tests use a few.",
 [SV],[("DelayRemove::poll_vec_change, find_index, find_last_index, remove_index, should_remove, remove_existing_futures","src/signal_vec.rs")],[("futures","removal future and removing flag of each shown element","DelayRemove")],["diffs of delay_remove()"])
p("C13","MutableBTreeMap edits behave like map edits and reach every subscriber",
 "Every editing operation of a MutableBTreeMap leaves the contents a plain ordered map would have after the same edit and returns the same result. Every signal map created from it receives diffs that are each valid at that point (insert only for an absent key, update and remove only for a present one) and that rebuild exactly the current contents. A subscriber that went away never disturbs the others.",
 H,"every key and value type, every sequence of edits, every set of subscribers attached and dropped at any point",
 "Tests run fixed scripts over a few keys.",
 [SM],[("MutableBTreeMapState and notify","src/signal_map.rs: mod mutable_btree_map")],[("values","current contents","MutableBTreeMapState"),("senders","live subscribers","MutableBTreeMapState")],["diffs of signal_map()","lock_ref() contents"])
p("C14","signal_vec_keys and signal_vec_entries list the map in key order",
 "The signal vec of keys (or entries) derived from a mutable ordered map always rebuilds to the map's keys (or entries) in ascending key order. Every emitted diff is valid when emitted. It ends exactly when the map's diffs end.",
 H,"every sequence of map edits",
 "The position of a key depends on all other keys present; tests use a few fixed keys.",
 [SM],[("MutableBTreeMapKeys, MutableBTreeMapEntries","src/signal_map.rs: mod mutable_btree_map")],[("keys","sorted keys","MutableBTreeMapKeys / MutableBTreeMapEntries")],["diffs of signal_vec_keys(), signal_vec_entries()"])
p("C15","SignalMap transformers keep keys and map values faithfully",
 "map_value keeps every key and order of changes and transforms each value exactly once; map_value_signal shows for every key the latest value of that key's own signal and forgets keys that were removed; key_cloned always shows the current value of the one watched key, or None when it is absent. They end only after the source (and any live inner signal) has ended, never poll a source again after it ended, and go idle only when everything that has not ended is registered to wake the task. Transforming the values carried by a map diff keeps its kind and its keys.",
 H,"every sequence of valid map diffs, every behaviour of the inner signals",
 "Replacing, re-inserting and removing keys while inner signals fire is only sampled by tests.",
 [SM],[("MapValue, MapValueSignal, MapWatchKeySignal, MapDiff::map","src/signal_map.rs")],(),["diffs/values of the transformed signal maps"])
p("C16","Single-source signal transformers follow their definition at every change",
 "For every sequence of values of a source that follows the Signal contract (a value on its first poll, idle only when registered or the task is already woken): map, inspect, dedupe, dedupe_map, dedupe_cloned, eq, neq, not, filter_map, first, stop_if, always, and the Option/Result-style helpers report exactly the values their documentation defines, with deduplicating ones reporting only when the value differs from the previous one, and the closure called exactly once per reported source value. They end exactly when defined to (source ended, first value seen, stop condition met) and never poll a source that has ended. They go idle only with the source registered to wake the current task.",
 H,"every source value sequence, every closure, every split into polls",
 "Tests use a handful of fixed poll scripts per combinator.",
 [SG],[("Map, MapRef-free transformers: Inspect, Eq, Neq, DedupeMap, Dedupe, DedupeCloned, FilterMap, First, StopIf, Always, Option-signals","src/signal/signal.rs")],(),["poll_change results"])
p("C17","Combining several signals always reflects the latest value of each",
 "A signal that combines several signals (map_ref!, map_mut!, and, or) calls its closure only when at least one source has changed and all sources have a value, and always with the most recent value of each source. After it goes idle the last reported value is the one for the latest values of all sources. It ends exactly when all sources have ended, and goes idle only with every source that has not ended registered to wake the task.",
 H,"every number of sources and every interleaving of their changes and ends",
 "The number of interleavings of k sources is unbounded; tests use two sources and a few scripts.",
 [MA,"src/internal.rs",SG],[("map_ref!/map_mut! expansion","src/signal/macros.rs"),("MapRef1, MapRefSignal, PollResult","src/internal.rs")],(),["poll_change results","closure arguments"])
p("C18","switch and flatten always show the value of the newest inner signal",
 "A flattened or switched signal always shows the latest value of the inner signal chosen by the latest outer value; values of an older inner signal are never shown after a newer one was chosen. It ends exactly when the outer and the current inner signal have both ended. It goes idle only with both of them that have not ended registered to wake the task.",
 H,"every interleaving of outer changes, inner changes and ends",
 "Tests script a few orders; the claim quantifies over all of them.",
 [SG],[("Flatten, Switch poll_change","src/signal/signal.rs")],(),["poll_change results"])
p("C19","Future and stream bridges deliver the latest result and never a stale one",
 "from_future reports the future's output exactly once, and from_stream the latest stream item at each poll, preceded by one None exactly if nothing was available at the first poll; map_future likewise, and reports only results of the future made from the most recent source value; throttle reports the latest source value once its delay is over. They end exactly when defined to: no later value can be pending. They go idle only with everything they still wait for registered to wake the task (a throttle inside its delay waits only for the delay).",
 H,"every interleaving of source changes, future completions and ends",
 "Races between a new source value and the completion of an older future are only sampled.",
 [SG],[("FromFuture, FromStream, MapFuture, Throttle","src/signal/signal.rs")],(),["poll_change results"])
p("C20","Signal sinks see every reported value and finish with the right result",
 "to_future resolves exactly when the signal ends and yields its last value; wait_for resolves with the first value equal to the wanted one, or None if the signal ends first; to_stream yields every reported value then ends; sample_stream_cloned pairs each stream item with the latest signal value; to_signal_vec reports each value as a Replace. None of them polls a source again after it has ended. They go idle only with what they wait for (for sample_stream_cloned, the stream) registered to wake the task.",
 H,"every sequence of values and ends, every split into polls",
 "Tests cover single scripts.",
 [SG,SV],[("ToFuture/SignalFuture, WaitFor, SignalStream, SampleStreamCloned, ForEach","src/signal/signal.rs"),("SignalVecStream","src/signal_vec.rs")],(),["poll results"])
p("C21","switch_signal_vec shows exactly the newest inner signal vec",
 "The contents rebuilt from the diffs of switch_signal_vec always equal what the newest chosen inner signal vec has reported, with nothing left over from an older one, and each emitted diff is valid when emitted. It ends only when the outer signal and the current inner signal vec have ended, after the contents are right. It goes idle only with both of them that have not ended registered to wake the task.",
 H,"every interleaving of outer changes, inner diffs and ends",
 "Stale contents appear only for particular combinations of an inner vec's length, end and replacement.",
 [SG],[("SwitchSignalVec::poll_vec_change","src/signal/signal.rs")],[("len/is_empty","emitted contents present","SwitchSignalVec")],["diffs of switch_signal_vec()"])
p("C22","Mutable holds the last written value and tells every signal about it",
 "Every write to a Mutable (set, replace, replace_with, swap, lock_mut) leaves exactly the written value and returns the old one, and set_neq writes and notifies only when the value differs. Every signal of it, when polled, reports the current value if it was written since that signal last reported, otherwise goes idle, and ends only after the last handle is gone and the last value was reported. Merely locking for writing without touching the value notifies nobody, and no operation deadlocks when its arguments are handles to the same Mutable.",
 H,"every sequence of reads, writes, clones, polls and drops",
 "Tests sample a few sequences.",
 [MU],[("Mutable, ReadOnlyMutable, MutableLockMut, MutableState, MutableSignalState","src/signal/mutable.rs")],[("changed flag","written since last reported","ChangedWaker"),("senders","live handles","MutableState")],["get/get_cloned","poll results","waker calls"])
p("C23","A Mutable signal never misses a write made on another thread",
 "For every interleaving of writers, handle drops and a task polling a signal of the same Mutable: after the last write, the task is either about to be woken or has already seen the last value. The last value written before the last handle is dropped is reported before the end. The end itself also wakes a waiting task.",
 ["schedules"],"every interleaving of set/replace/drop on any threads with poll_change on another",
 "The window between checking for a change and registering the waker is a few instructions; tests are single-threaded.",
 [MU],[("MutableSignalState::poll_change, ChangedWaker::wake/set_waker/is_changed, ReadOnlyMutable drop","src/signal/mutable.rs")],[("changed","atomic flag","ChangedWaker"),("waker","stored task","ChangedWaker")],["wakes","poll results"])
p("C24","channel: the receiver always ends with the last value sent, then the end",
 "The receiver of a channel reports the initial or most recently sent value that it has not yet reported, goes idle otherwise, and reports the end only when all senders are gone and nothing sent is unreported. After any concurrent send, drop of the last sender or close, a waiting task is woken. A send succeeds exactly while the receiver is alive and the channel was not closed, and a failed send returns the value; a send racing a concurrent close or drop of the receiver may succeed without being reported.",
 ["schedules","histories"],"every interleaving of send, clone, drop, close and poll on any threads",
 "The tests are single-threaded; the check-then-register window needs a particular interleaving.",
 [CH,AT],[("Receiver::poll_change, Sender::send/close/drop/clone","src/signal/channel.rs"),("AtomicOption","src/atomic.rs")],[("senders","number of open senders","Inner"),("value","latest unsent value","Inner"),("waker","waiting task","Inner")],["poll results","send results","wakes"])
p("C25","Every Broadcaster signal sees the source's latest value",
 "Every signal created from a Broadcaster, whenever it is created, reports the source's most recent value that it has not reported yet, and ends only when the source has ended and its last value was reported. A change of the source observed through any of these signals wakes every other waiting one. This holds for signals polled from different threads in any interleaving.",
 ["schedules","histories"],"every set of derived signals, every polling order, every thread interleaving",
 "Needs two tasks polling at the same moment; tests poll from one thread in a fixed order.",
 [BR],[("BroadcasterSharedState::poll, BroadcasterNotifier, BroadcasterSignal*","src/signal/broadcaster.rs")],[("epoch","version of the value","BroadcasterInnerState"),("wakers","per-signal task and changed state","BroadcasterNotifier / ChangedWaker")],["poll results","wakes"])
p("C26","A cancelled future stops, and cancellation always wakes it",
 "A cancelable future resolves either with the inner future's output or, once its handle is dropped (unless leaked), with the cancel value; after cancellation the inner future is never polled again and is dropped. Cancelling always wakes the task that last polled it, in any interleaving with that poll. It never resolves twice and never loses the output of an inner future that completed first.",
 ["schedules","histories"],"every interleaving of polling and dropping the handle",
 "The window between checking for cancellation and storing the waker is not reachable from single-threaded tests.",
 [FU],[("CancelableFuture::poll, CancelableFutureState, CancelableFutureHandle","src/future.rs")],[("is_cancelled","cancel flag","CancelableFutureState"),("waker","task to wake","CancelableFutureState")],["poll results","wakes"])
p("C27","Nothing is polled again after it reported its end",
 "No combinator, sink or converter in the library polls a source signal, signal vec, signal map, stream or future again after that source has reported its end or completed. This holds also when the combinator itself keeps running because other sources are alive, provided its own consumer stops polling it after its end.",
 H,"every combinator, every source behaviour",
 "Only sources that misbehave after their end would show it; test sources do not.",
 [SG,SV,SM,MA,"src/internal.rs"],[("Option<A> sources set to None at the end","all combinators")],(),["polls of the sources"])
p("C28","Every poll returns, and draining a combinator comes to an end",
 "Suppose every source reports only finitely many changes before it goes idle or ends. Then every poll of a combinator, sink or converter returns after finitely many steps, and polling a combinator again and again goes idle or reports the end after finitely many reports. Every report is either the first one, or caused by at least one new report or the end of a source, or the next of finitely many changes which were queued by such a cause. In particular a source which has ended causes no further reports and no endless loop.",
 H,"every combinator, every source behaviour (however many changes are available at once, whichever of several sources end)",
 "A test only sees that its own few polls return; an endless loop or endless repetition needs a particular source to end or go idle at a particular moment.",
 [SG,SV,SM,BR],[("the loops of all poll functions","all combinators")],(),["polls return","number of reports"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
