// The assumed contracts of the operations on the world cannot contradict each other: from every world
// that satisfies `inv` and the precondition of an operation, some world satisfies `inv` and the
// operation's postcondition (for some result, under the stated side condition: when it does not hold,
// the operation does not return).
pub mod consistent {
use vstd::prelude::*;
use crate::stub::*;

pub open spec fn set_at(f: spec_fn(int) -> int, v: int, x: int) -> spec_fn(int) -> int { |u: int| if u == v { x } else { f(u) } }
pub open spec fn val_at(f: spec_fn(Eid) -> Option<Val>, e: Eid, x: Option<Val>) -> spec_fn(Eid) -> Option<Val> { |d: Eid| if d == e { x } else { f(d) } }

/// there is a world to begin with: nothing reserved, nothing known
pub proof fn c_start() ensures exists|f: WS| #[trigger] inv(f) && idle(f)
{
    let f = WS { known: ISet::empty(), lbr: |v: int| 0, lbc: |v: int| 0, mcap: |v: int| 0, owned: ISet::empty(), duty: ISet::empty(), caps: ISet::empty(),
        log: Seq::empty(), held: Seq::empty(), excl: ISet::empty(), xres: |v: int| 0, xwri: |v: int| 0, xval: |e: Eid| None, seen: ISet::empty(), moved: None };
    assert(inv(f));
}
/// operations that only observe (iterators, queries, comparisons, user code)
pub proof fn c_quiet(o: WS) requires inv(o) ensures quiet(o, o) {}
pub proof fn c_resume(o: WS) requires inv(o) ensures exists|f: WS| #[trigger] inv(f) && resume_post(o, f)
{
    let f = WS { owned: ISet::empty(), excl: ISet::empty(), ..o };
    assert(inv(f) && resume_post(o, f));
}
pub proof fn c_fetch_add(o: WS, v: int, n: int)
    requires inv(o), 0 <= n, (if o.excl.contains(v) { (o.xres)(v) } else { (o.lbr)(v) }) + n <= usize::MAX,
    ensures exists|f: WS, r: int| #[trigger] inv(f) && #[trigger] fetch_add_post(o, f, v, n, r),
{
    let r = if o.excl.contains(v) { (o.xres)(v) } else { (o.lbr)(v) };
    assert((o.lbr)(v) <= r);
    let new = ISet::new(|e: Eid| e.v == v && r <= e.k < r + n);
    let f = WS { lbr: set_at(o.lbr, v, r + n), owned: o.owned.union(new), duty: o.duty.union(new), xres: set_at(o.xres, v, r + n), ..o };
    assert forall|u: int| f.excl.contains(u) implies #[trigger] (f.lbr)(u) <= (f.xres)(u) <= usize::MAX && 0 <= (f.xwri)(u) <= usize::MAX by { assert((o.lbr)(u) <= (o.xres)(u)); }
    assert forall|e: Eid| #[trigger] f.known.contains(e) implies 0 <= e.k < (f.lbr)(e.v) && e.k < (f.lbc)(e.v) && !f.owned.contains(e) by { }
    assert forall|e: Eid| #[trigger] (f.xval)(e) is Some && f.excl.contains(e.v) implies 0 <= e.k < (f.xres)(e.v) && e.k < (f.lbc)(e.v) by { assert((o.xval)(e) is Some); }
    assert forall|u: int| 0 <= #[trigger] (f.lbr)(u) <= usize::MAX by { assert((o.lbr)(u) >= 0); }
    assert forall|e: Eid| #[trigger] f.owned.contains(e) implies 0 <= e.k < (f.lbr)(e.v) by { assert((o.lbr)(e.v) >= 0); }
    assert(inv(f));
    assert(fetch_add_post(o, f, v, n, r));
}
pub proof fn c_load_res(o: WS, v: int) requires inv(o) ensures exists|f: WS, r: int| #[trigger] inv(f) && #[trigger] load_res_post(o, f, v, r)
{
    let r = if o.excl.contains(v) { (o.xres)(v) } else { (o.lbr)(v) };
    assert((o.lbr)(v) <= r);
    let f = WS { lbr: set_at(o.lbr, v, r), ..o };
    assert forall|u: int| f.excl.contains(u) implies #[trigger] (f.lbr)(u) <= (f.xres)(u) <= usize::MAX && 0 <= (f.xwri)(u) <= usize::MAX by { assert((o.lbr)(u) <= (o.xres)(u)); }
    assert forall|e: Eid| #[trigger] f.known.contains(e) implies 0 <= e.k < (f.lbr)(e.v) && e.k < (f.lbc)(e.v) && !f.owned.contains(e) by { }
    assert forall|e: Eid| #[trigger] (f.xval)(e) is Some && f.excl.contains(e.v) implies 0 <= e.k < (f.xres)(e.v) && e.k < (f.lbc)(e.v) by { assert((o.xval)(e) is Some); }
    assert forall|u: int| 0 <= #[trigger] (f.lbr)(u) <= usize::MAX by { assert((o.lbr)(u) >= 0); }
    assert forall|e: Eid| #[trigger] f.owned.contains(e) implies 0 <= e.k < (f.lbr)(e.v) by { assert((o.lbr)(e.v) >= 0); }
    assert(inv(f) && load_res_post(o, f, v, r));
}
pub proof fn c_load_wri(o: WS, v: int, a: bool) requires inv(o) ensures exists|f: WS, r: int| #[trigger] inv(f) && #[trigger] load_wri_post(o, f, v, r, a)
{
    let r = if o.excl.contains(v) { (o.xwri)(v) } else { 0 };
    assert((o.lbr)(v) >= 0 && (o.lbc)(v) >= 0);
    if r > 0 && all_known(o, v, 0, r) { assert(o.known.contains(eid(v, r - 1))); }
    assert(inv(o) && load_wri_post(o, o, v, r, a));
}
pub proof fn c_store_res(o: WS, v: int, n: int)
    requires inv(o), 0 <= n, store_res_pre(o, v, n),
    ensures exists|f: WS| #[trigger] inv(f) && store_res_post(o, f, v, n),
{
    let f = WS { xres: set_at(o.xres, v, n), lbr: set_at(o.lbr, v, n), ..o };
    assert((o.lbr)(v) <= (o.xres)(v));
    assert forall|e: Eid| #[trigger] f.known.contains(e) implies 0 <= e.k < (f.lbr)(e.v) && e.k < (f.lbc)(e.v) && !f.owned.contains(e) by {
        if e.v == v { assert((o.xval)(e) is Some); }
    }
    assert forall|e: Eid| #[trigger] (f.xval)(e) is Some && f.excl.contains(e.v) implies 0 <= e.k < (f.xres)(e.v) && e.k < (f.lbc)(e.v) by {
        assert((o.xval)(e) is Some);
    }
    assert(inv(f) && store_res_post(o, f, v, n));
}
pub proof fn c_store_wri(o: WS, v: int, n: int)
    requires inv(o), 0 <= n <= usize::MAX, o.excl.contains(v),
    ensures exists|f: WS| #[trigger] inv(f) && store_wri_post(o, f, v, n),
{
    let f = WS { xwri: set_at(o.xwri, v, n), ..o };
    assert forall|u: int| f.excl.contains(u) implies #[trigger] (f.lbr)(u) <= (f.xres)(u) <= usize::MAX && 0 <= (f.xwri)(u) <= usize::MAX by { assert((o.lbr)(u) <= (o.xres)(u)); }
    assert(inv(f) && store_wri_post(o, f, v, n));
}
pub proof fn c_init(o: WS, e: Eid, x: Val)
    requires inv(o), o.owned.contains(e), e.k < (o.lbc)(e.v), !o.duty.contains(e),
    ensures exists|f: WS| #[trigger] inv(f) && init_post(o, f, e, x),
{
    let f = WS { known: o.known.insert(e), owned: o.owned.remove(e), log: o.log.push(Ev::Init(e, x)), xval: val_at(o.xval, e, Some(x)), ..o };
    assert((o.lbr)(e.v) >= 0);
    assert(inv(f));
    assert(init_post(o, f, e, x));
}
pub proof fn c_effect(o: WS, e: Eid, ev: Ev) requires inv(o) ensures exists|f: WS| #[trigger] inv(f) && effect(o, f, e, ev)
{
    let f = WS { log: o.log.push(ev), ..o };
    assert(inv(f) && effect(o, f, e, ev));
}
pub proof fn c_hold(o: WS, e: Eid) requires inv(o) ensures exists|f: WS| #[trigger] inv(f) && still(o, f) && f.held == o.held.push(e)
{
    let f = WS { held: o.held.push(e), ..o };
    assert(inv(f) && still(o, f));
}
pub proof fn c_release(o: WS, g: Seq<Eid>) requires inv(o) ensures inv(WS { held: g, ..o }) {}
pub proof fn c_take(o: WS, e: Eid)
    requires inv(o), o.excl.contains(e.v),
    ensures exists|f: WS, r: Option<Val>| #[trigger] inv(f) && #[trigger] take_post(o, f, e, r),
{
    let f = WS { known: o.known.remove(e), xval: val_at(o.xval, e, None), log: if (o.xval)(e) is Some { o.log.push(Ev::Take(e)) } else { o.log }, ..o };
    assert forall|d: Eid| #[trigger] (f.xval)(d) is Some && f.excl.contains(d.v) implies 0 <= d.k < (f.xres)(d.v) && d.k < (f.lbc)(d.v) by { assert((o.xval)(d) is Some); }
    assert forall|d: Eid| f.known.contains(d) && f.excl.contains(d.v) implies #[trigger] (f.xval)(d) is Some by { assert((o.xval)(d) is Some); }
    assert(inv(f) && take_post(o, f, e, (o.xval)(e)));
}
pub proof fn c_state_load(o: WS, e: Eid, acquires: bool)
    requires inv(o),
    ensures exists|f: WS, r: u8| #[trigger] inv(f) && #[trigger] state_load_post(o, f, e, r, acquires),
{
    let x = o.excl.contains(e.v) && !o.held.contains(e);
    let r = if x { if (o.xval)(e) is Some { SOME } else { NONE } } else if o.known.contains(e) { if uncontended(e) { SOME } else { RESERVED } } else { NONE };
    let known = if r != NONE && e.k < (o.lbr)(e.v) { o.known.insert(e) } else { o.known };
    let f = WS { known, seen: o.seen.insert(e), ..o };
    if x && (o.xval)(e) is None { assert(!o.known.contains(e)); }
    assert(inv(f) && state_load_post(o, f, e, r, acquires));
}
pub proof fn c_write_publish(o: WS, e: Eid, x: Val)
    requires inv(o), may_init(o, e),
    ensures ({ let m = WS { log: o.log.push(Ev::Init(e, x)), ..o }; inv(m) && may_init(m, e) && exists|f: WS| #[trigger] inv(f) && publish_post(m, f, e) }),
{
    let m = WS { log: o.log.push(Ev::Init(e, x)), ..o };
    assert(m.log.drop_last() =~= o.log);
    c_init(o, e, x);
    let f = choose|f: WS| #[trigger] inv(f) && init_post(o, f, e, x);
    assert(publish_post(m, f, e));
}
pub proof fn c_unmark(o: WS, e: Eid)
    requires inv(o), o.excl.contains(e.v), !o.held.contains(e),
    ensures exists|f: WS| #[trigger] inv(f) && unmark_post(o, f, e),
{
    let f = WS { known: o.known.remove(e), xval: val_at(o.xval, e, None), log: if (o.xval)(e) is Some { o.log.push(Ev::Take(e)) } else { o.log }, moved: (o.xval)(e), ..o };
    assert forall|d: Eid| #[trigger] (f.xval)(d) is Some && f.excl.contains(d.v) implies 0 <= d.k < (f.xres)(d.v) && d.k < (f.lbc)(d.v) by { assert((o.xval)(d) is Some); }
    assert forall|d: Eid| f.known.contains(d) && f.excl.contains(d.v) implies #[trigger] (f.xval)(d) is Some by { assert((o.xval)(d) is Some); }
    assert(inv(f) && unmark_post(o, f, e));
}
/// an acquisition succeeds at least for an element that is already known
pub proof fn c_lock(o: WS, e: Eid) requires inv(o), can_lock(o, e), o.known.contains(e) ensures exists|f: WS| #[trigger] inv(f) && lock_post(o, f, e) && f.known.contains(e)
{
    let f = WS { held: o.held.push(e), ..o };
    assert(f.held.drop_last() =~= o.held);
    assert(inv(f) && lock_post(o, f, e));
}
pub proof fn c_secured(o: WS, v: int, from: int, n: int)
    requires inv(o), 0 <= from, 0 <= n, n > 0 ==> from + n <= (o.mcap)(v) && from + n <= usize::MAX,
    ensures exists|f: WS| #[trigger] inv(f) && secured_post(o, f, v, from, n),
{
    let c = if n > 0 && (o.lbc)(v) < from + n { from + n } else { (o.lbc)(v) };
    let gone = ISet::new(|x: Eid| !(x.v == v && from <= x.k < from + n));
    let f = WS { lbc: set_at(o.lbc, v, c), duty: o.duty.intersect(gone), ..o };
    assert((o.lbc)(v) >= 0);
    assert(inv(f));
    assert(secured_post(o, f, v, from, n));
}
pub proof fn c_capacity(o: WS, v: int) requires inv(o) ensures exists|f: WS| #[trigger] inv(f) && quiet(o, f) && cap_seen(o, f, v, (o.lbc)(v))
{
    let f = WS { caps: o.caps.insert(eid(v, (o.lbc)(v))), ..o };
    assert((o.lbc)(v) >= 0);
    assert(inv(f) && quiet(o, f));
}
pub proof fn c_grown(o: WS, v: int, new: int)
    requires inv(o), 0 <= new <= usize::MAX,
    ensures exists|f: WS| #[trigger] inv(f) && grown_post(o, f, v, new),
{
    let c = if (o.lbc)(v) < new { new } else { (o.lbc)(v) };
    let gone = ISet::new(|x: Eid| !(x.v == v && x.k < new));
    let f = WS { lbc: set_at(o.lbc, v, c), duty: o.duty.intersect(gone), ..o };
    assert((o.lbc)(v) >= 0);
    assert(inv(f) && grown_post(o, f, v, new));
}
pub proof fn c_discharge(o: WS, v: int) requires inv(o) ensures exists|f: WS| #[trigger] inv(f) && discharge_post(o, f, v)
{
    let gone = ISet::new(|x: Eid| !(x.v == v && x.k < (o.lbc)(v)));
    let f = WS { duty: o.duty.intersect(gone), ..o };
    assert(inv(f) && discharge_post(o, f, v));
}
pub proof fn c_reserve(o: WS, v: int, len: int, max: int)
    requires inv(o),
    ensures exists|f: WS, r: int| #[trigger] inv(f) && #[trigger] reserve_post(o, f, v, len, max, r),
{
    let r = if (o.mcap)(v) < max { max } else { (o.mcap)(v) };
    let f = WS { mcap: set_at(o.mcap, v, r), log: o.log.push(Ev::Reserve(v, len, max)), ..o };
    assert(inv(f) && reserve_post(o, f, v, len, max, r));
}
/// `v` is not in use yet
pub proof fn c_new(o: WS, v: int, s: Seq<Option<Val>>, max: int)
    requires inv(o), s.len() <= usize::MAX, !o.excl.contains(v), (o.lbr)(v) == 0, (o.mcap)(v) == max,
    ensures exists|f: WS| #[trigger] inv(f) && new_post(o, f, v, s, max),
{
    let n = s.len() as int;
    let c = if (o.lbc)(v) < n { n } else { (o.lbc)(v) };
    let f = WS {
        known: o.known.union(ISet::new(|e: Eid| e.v == v && 0 <= e.k < n && s[e.k] is Some)),
        lbr: set_at(o.lbr, v, n), lbc: set_at(o.lbc, v, c), excl: o.excl.insert(v), xres: set_at(o.xres, v, n), xwri: set_at(o.xwri, v, n),
        xval: |e: Eid| if e.v == v { if 0 <= e.k < n { s[e.k] } else { None } } else { (o.xval)(e) }, ..o };
    assert((o.lbc)(v) >= 0);
    assert forall|e: Eid| #[trigger] (f.xval)(e) is Some && f.excl.contains(e.v) implies 0 <= e.k < (f.xres)(e.v) && e.k < (f.lbc)(e.v) by { if e.v != v { assert((o.xval)(e) is Some); } }
    assert forall|e: Eid| f.known.contains(e) && f.excl.contains(e.v) implies #[trigger] (f.xval)(e) is Some by { if e.v != v { assert((o.xval)(e) is Some); } }
    assert forall|u: int| f.excl.contains(u) implies #[trigger] (f.lbr)(u) <= (f.xres)(u) <= usize::MAX && 0 <= (f.xwri)(u) <= usize::MAX by { if u != v { assert((o.lbr)(u) <= (o.xres)(u)); } }
    assert(inv(f));
    assert(new_post(o, f, v, s, max));
}
pub proof fn c_swap(o: WS, a: Eid, b: Eid) requires inv(o) ensures exists|f: WS| #[trigger] inv(f) && swap_post(o, f, a, b)
{
    let f = WS { log: o.log.push(Ev::Swap(a, b)), ..o };
    assert(inv(f) && swap_post(o, f, a, b));
}
} // mod consistent
