import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
RES=("number of reserved positions","positions handed out to growth calls so far","src/state.rs")
WRI=("cached number of written positions","a lower bound of the gap-free length","src/state.rs")

p("C01","Growth hands out unique positions and writes every value there exactly once",
"Every push, extend, extend_n_items, extend_for_idx and push_for_idx returns the index of its first value; the positions of different calls never overlap, one call's values are contiguous and in iteration order, and closures get the very index that is returned. When the call returns, exactly the given values are stored at exactly these positions and readable by the caller and by every thread that learns of it.",
["schedules","inputs"],"all numbers of threads, interleavings and orders of growth calls; all batch sizes including 0, all prior lengths, all storage kinds",
"The tests push from a few threads with fixed batch sizes and sort or count afterwards; they sample interleavings and few batch positions relative to fragment boundaries.",
["src/grow.rs","src/helpers.rs","src/state.rs"],
[("atomic reservation of positions","src/grow.rs push, extend_n_items, extend_for_idx"),("initialisation of reserved elements","src/grow.rs")],[RES],["ConcurrentVec::push","ConcurrentVec::extend","ConcurrentVec::get"])
p("C02","Growth is handed to exactly one caller, finishes, and stays within capacity",
"Whatever the interleaving, each capacity increase is performed by exactly one growth call and all others wait for it and then proceed; no value is ever written to memory that is not allocated. A growth call that cannot fit within the maximum capacity panics and leaves all other positions, current and future calls of other threads intact; the closure of push_for_idx or extend_for_idx runs only after its positions are secured, so that a slow or panicking closure never blocks another thread.",
["schedules","inputs","configurations"],"all interleavings of growth calls, all batch sizes relative to the capacity, all storage kinds and maximum capacities",
"Tests use storages which are large enough and a single growth race per run; they neither exhaust the case analysis of begin/last position versus capacity nor stall a caller between reserving and growing.",
["src/state.rs","src/grow.rs"],
[("write permits: write, grow then write, or wait","src/state.rs write_permit, write_permit_n_items"),("memory secured before user code","src/grow.rs push_for_idx, extend_for_idx")],[RES],["ConcurrentVec::push","ConcurrentVec::extend","ConcurrentVec::capacity"])
p("C03","Length counts the gap-free prefix, never goes back, and reads do not affect it",
"len() returns a number n such that all of the first n positions are written and visible to the caller, and at least the number of every prefix the caller already knew to be written. It never decreases until the vec is cleared, equals the number of values once all growth calls have returned, and is not affected by other threads reading, updating or comparing elements at the same time; is_empty() is len() == 0.",
["schedules","histories"],"all interleavings of growth calls, length calls and element accesses by any number of threads",
"Tests ask for the length after joining all threads; the states while a position is reserved but not written, or while an element is locked by a reader, are rarely or never reached.",
["src/vec.rs","src/state.rs","src/helpers.rs"],
[("scan of the written prefix from the cached length","src/vec.rs len"),("monotone update of the cached length","src/vec.rs len")],[WRI,RES],["ConcurrentVec::len","ConcurrentVec::is_empty","ConcurrentSlice::len"])
p("C04","Access by index gives exactly the written element, or nothing",
"get(i), indexing, get_cloned(i) and get_copied(i) of a vec or slice give the element at position i (of the window) if it is written and known to the caller, and give None, or panic for indexing, for every position beyond the length or window. A position that is only reserved, or beyond the capacity, never yields a value and never causes an access outside the allocated memory, whatever other threads do.",
["schedules","inputs"],"all indices of usize, all lengths, all windows, all interleavings with growth, including failed growth",
"Tests read a few indices of quiescent vecs; boundary indices, positions reserved by stalled or failed growth and huge indices are not enumerated.",
["src/vec.rs","src/concurrent_slice/slice.rs","src/common_traits/index.rs"],
[("bounds checks before access","src/vec.rs get, get_cloned; src/concurrent_slice/slice.rs get, get_cloned"),("clamping of reservations to the capacity","src/vec.rs reserved_len")],[RES,WRI],["ConcurrentVec::get","ConcurrentSlice::get","Index"])
p("C05","Operations on one element are atomic, exclusive, and lose no value",
"cloned, copied, map, replace, set and update of an element each take effect exactly once at one instant, on the complete value stored at that instant, and no two accesses of which one writes overlap. replace returns exactly the value it displaced, set drops it, update calls its closure exactly once with the stored value, so that no value is lost, duplicated, torn or dropped twice.",
["schedules","inputs","histories"],"all interleavings of any operations on the same element by any number of threads",
"The tests check sums after concurrent updates; lost updates, doubly returned values and reads during a write need specific interleavings and drop accounting.",
["src/elem.rs"],
[("delegation to the atomic optional value","src/elem.rs")],None,["ConcurrentElement::replace","ConcurrentElement::update","ConcurrentElement::map"])
p("C06","A slice is a fixed window onto the live elements of its vec",
"slice(range) and as_slice() denote exactly the positions a..b of the given range within the length at that moment (nested slices relative to their parent), and never a position outside the parent. All reads and writes through the slice act on the very elements of the vec, its length stays the same whatever happens to the vec, and an inverted or out-of-range range never gives access to positions beyond the written prefix.",
["inputs","schedules"],"all kinds of range bounds, all nestings, all lengths, with concurrent growth and updates of the parent",
"Tests use a handful of ranges on one vec; all bound kinds, nesting offsets, empty windows and concurrent growth are not covered.",
["src/vec.rs","src/concurrent_slice/slice.rs","src/concurrent_slice/mod.rs"],
[("range limits from the current length","src/vec.rs slice; src/concurrent_slice/slice.rs slice"),("window offset added on access","src/concurrent_slice/slice.rs")],None,["ConcurrentVec::slice","ConcurrentSlice::iter"])
p("C07","Splits and chunks partition the elements in order without overlap or loss",
"split_at(mid) gives the first mid and the remaining positions and panics for mid beyond the length; split_first and split_last give the first or last element and all others, or None if empty. chunks(k) gives consecutive windows of exactly k positions, except for a shorter non-empty last one, covering each position once, and panics for k = 0; all of this for vecs and slices.",
["inputs","schedules"],"all lengths, split points and chunk sizes (also huge ones), of vecs and of nested slices, also while the vec grows",
"Tests check few sizes that are multiples or near multiples; off-by-one and overflow cases and growth between the two length reads are not covered.",
["src/split.rs","src/concurrent_slice/split.rs"],
[("windows computed from one length","src/split.rs; src/concurrent_slice/split.rs")],None,["ConcurrentVec::split_at","ConcurrentVec::chunks"])
p("C08","Swap exchanges exactly two elements and always finishes",
"swap(i, j) of a vec or slice exchanges the values of positions i and j and returns true if both are within the length or window, and otherwise changes nothing and returns false; swap(i, i) of a valid index is true without effect. No other thread ever sees one value twice or none, no value is lost, and concurrent swaps, in any orientation and through any windows, never wait for each other in a circle.",
["schedules","inputs"],"all pairs of indices including equal and out of range ones, all windows, all interleavings of swaps with other operations",
"Tests swap a few index pairs in one thread; a circular wait needs two threads swapping overlapping pairs at the same time.",
["src/mut_elem.rs","src/concurrent_slice/mut_elem.rs","src/helpers.rs"],
[("exclusive access to both elements in address order","src/mut_elem.rs swap"),("window translation","src/concurrent_slice/mut_elem.rs swap")],None,["ConcurrentVec::swap","ConcurrentSlice::swap"])
p("C09","fill and fill_with set each element of the current range once, in order",
"fill(value) stores a clone of the value, and fill_with(f) stores f(index), into each position within the length of the vec at the start of the call (all positions of a slice, with indices relative to it), exactly once, in increasing order, and touches no other position. The closure is called exactly once per position, outside of any exclusive access, so that it may use the vec.",
["inputs","schedules"],"all lengths and windows, closures with state or which access or grow the vec, concurrent growth and updates",
"Tests fill small vecs; stateful and re-entrant closures, and positions outside the window, are not checked.",
["src/mut_elem.rs","src/concurrent_slice/mut_elem.rs"],
[("iteration and set","src/mut_elem.rs; src/concurrent_slice/mut_elem.rs")],None,["ConcurrentVec::fill","ConcurrentSlice::fill_with"])
p("C10","Iteration shorthands, search and copies see each element once in order",
"iter, iter_cloned, map, filter, fold, reduce, clone_to_vec, index_of and contains of a vec (slice) visit exactly the positions 0..n, with n the length at the start (all positions of the window), each once and in increasing order, and combine the values exactly as the same operation on a plain vector does. Every visited value is a complete value the element held during the visit; index_of gives the first match and reduce of an empty range gives None.",
["inputs","schedules"],"all contents, lengths and windows, all closures including stateful and non-commutative ones, with concurrent growth and updates",
"Tests use commutative sums over small quiescent vecs, for which order, seed or position errors cancel out.",
["src/vec.rs","src/iter_shorthands.rs","src/partial_eq.rs","src/to_vec.rs","src/concurrent_slice/iter_shorthands.rs","src/concurrent_slice/partial_eq.rs","src/concurrent_slice/to_vec.rs"],
[("element iteration over the written prefix or window","src/vec.rs iter; src/concurrent_slice/slice.rs iter"),("adapters","src/iter_shorthands.rs")],None,["ConcurrentVec::iter","ConcurrentVec::reduce","ConcurrentVec::index_of"])
p("C11","Equality and Debug reflect the elements in order and never wait in a circle",
"Comparisons among vecs, slices, elements, arrays and values are true exactly if the lengths agree and all pairs of values at equal positions are equal, in the orientation written; Debug with `{:?}` prints the values in order like a plain vector does. Comparing under concurrent updates uses complete values each held at some moment, comparing an element or vec with itself or two vecs from two threads in opposite directions always finishes.",
["inputs","schedules"],"all contents and lengths, asymmetric and partial equality such as NaN, self comparison, opposite comparisons in several threads",
"Tests compare equal vecs and a few unequal ones in one thread; prefixes, asymmetric equality, self comparison and simultaneous opposite comparisons are not covered.",
["src/common_traits/eq.rs","src/common_traits/debug.rs","src/partial_eq.rs"],
[("pairwise comparison until both iterators end","src/common_traits/eq.rs"),("nested access in address order","src/common_traits/eq.rs")],None,["PartialEq","Debug"])
p("C12","Conversions keep every value once, in order, without leak or double drop",
"to_vec, into_inner and back, into_iter, clone, From and FromIterator of a vec whose growth calls have all returned give exactly its values, once each, in position order, with a consistent length, so that growth continues behind the last value. A clone is independent of the original, and holds, if it is made while other threads grow the vec, a prefix of the positions with at least those known to be written before; when all parts are dropped each value has been dropped exactly once.",
["inputs","histories"],"all contents and lengths at and around fragment boundaries, all storage kinds, after any history of operations including failed growth, partially consumed iterators",
"Tests convert small quiescent vecs and compare contents; drop counts, partially consumed iterators, inexact size hints and vecs after failed growth are not covered.",
["src/vec.rs","src/to_vec.rs","src/common_traits/into_iter.rs","src/common_traits/clone.rs","src/common_traits/from_iter.rs","src/new.rs","src/state.rs"],
[("final length from reservations within the capacity","src/vec.rs into_inner"),("unwrapping of each element","src/to_vec.rs; src/common_traits/into_iter.rs")],[RES],["ConcurrentVec::to_vec","ConcurrentVec::into_inner","IntoIterator"])
p("C13","clear and reserve_maximum_capacity leave a consistent, usable vec",
"After clear the vec is empty, every value has been dropped exactly once, no old value can be observed, and it can be filled again from position 0. reserve_maximum_capacity returns the new maximum capacity, which is at least the requested and the previous one, keeps all values at their positions and addresses, makes growth up to the new maximum possible and forgets reservations of failed growth; capacity never exceeds the maximum and covers all written positions.",
["histories","inputs","configurations"],"all histories of growth, failed growth, clear and reserve, all requested capacities, all storage kinds",
"Tests clear and reserve once on fresh vecs; combinations with failed growth, cached lengths, and drop accounting are not covered.",
["src/exclusive.rs","src/vec.rs","src/state.rs"],
[("dropping in place and resetting both counters","src/exclusive.rs clear"),("counter repair before reserving","src/exclusive.rs reserve_maximum_capacity")],[RES,WRI],["ConcurrentVec::clear","ConcurrentVec::reserve_maximum_capacity","ConcurrentVec::capacity"])
p("C14","Raw access yields only pointers to the written element at that position",
"get_raw, get_raw_mut, get_ref, get_mut, iter_ref and iter_mut of a vec or slice give a pointer or reference to the value of exactly the addressed position, for each position that is written, in order, and nothing for positions that are unwritten, beyond the length, window or capacity. They never yield a pointer to uninitialised or foreign memory, whatever the index and whatever other threads push.",
["inputs","schedules"],"all indices of usize, all windows, vecs with unwritten gaps, concurrent or failed growth",
"Tests dereference a few in-range positions; gaps, boundary indices in slices, and positions after failed growth are not covered.",
["src/unsafe_api.rs","src/concurrent_slice/unsafe_api.rs"],
[("bounds and state checks before giving the pointer","src/unsafe_api.rs"),("window translation","src/concurrent_slice/unsafe_api.rs idx")],None,["ConcurrentVec::get_raw","ConcurrentVec::get_ref","ConcurrentSlice::get_mut"])
p("C15","A vec is shared or sent across threads only if that is sound for its values",
"A concurrent vec, slice or element can be shared by several threads only if its values may be both sent and shared, because a shared reference lets any thread move values in and out and read them in place; a vec can be moved to another thread only if its values can. For all such value types sharing and sending is possible.",
["programs"],"all value types and all storage kinds",
"A missing bound is a property of programs which must not compile; no test instantiates the vec with values that are not sendable or not shareable.",
["src/vec.rs"],
[("bounds of the marker trait implementations","src/vec.rs unsafe impl Send, Sync")],None,["Sync for ConcurrentVec","Send for ConcurrentVec"])
p("C16","Panicking callbacks and failed growth leave the vec valid and usable",
"If user code called by an operation (closure, clone, comparison, formatting, iterator) panics, or growth beyond the maximum capacity panics, every other element keeps its value, the element being accessed is released and still holds a valid value, no value is lost other than those not yet stored, and none is dropped twice. All other calls, by this and other threads, keep working on the written positions, never wait for the call that panicked, and never see an unwritten position.",
["fault_sequences","schedules","inputs"],"all operations taking callbacks, a panic at each call of each callback, each failed growth, followed by any further operations",
"The tests contain only should_panic cases that end the program state; none continues to use the vec after a panic.",
["src/grow.rs","src/elem.rs","src/mut_elem.rs","src/vec.rs","src/helpers.rs"],
[("positions secured before user code","src/grow.rs"),("reservations clamped to the capacity","src/vec.rs reserved_len, into_inner"),("capacity asserted before reserving","src/grow.rs extend_n_items, extend_for_idx")],[RES],["ConcurrentVec::push_for_idx","ConcurrentVec::extend_for_idx","ConcurrentElement::update"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sc); assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1; assert n<=3,(x['id'],n)
NOTE={
"C14":" Known findings K1 and K2 are excluded (known_findings.txt).","C13":" Known finding K1 (fixed storage reserved beyond its capacity) is excluded."}
TH={}
M={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[],
"notes":"One extraction and one verifier run decide all properties; each check attributes the obligations of its property. DESIGN.md lists the assumptions. No hooks in /repo are needed."}
for x in P:
    i=x['id']
    M["checks"].append({"property":i,"quick_cmd":f"python3 /verif/check.py {i} quick","thorough_cmd":f"python3 /verif/check.py {i} thorough",
    "technique":"contracts on the mechanically extracted real functions, discharged by Verus/Z3; native scenario search for failing inputs",
    "level":"proof",
    "level_note":"All obligations of the functions this property depends on are discharged for all inputs, with a ghost world for concurrent knowledge; the dependencies orx-pinned-concurrent-col and orx-concurrent-option are extracted and proved with it, below them contracts of atomics, cells, pinned vecs and std are assumed. Functions whose contract anchors are lost by an edit fall back to the scenario search (bounded, reported as such)."+NOTE.get(i,"")})
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
