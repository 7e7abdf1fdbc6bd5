// Why the assumed contracts of the shared operations hold in every schedule. All threads together are
// modelled by their worlds plus the shared state (view based: a value of the counter of written
// positions is a message that carries what its writer knew). Every operation, allowed by its
// precondition in the world of its thread, keeps the global invariant `ginv` whatever value it reads,
// leaves the worlds of all other threads alone, and establishes in the thread's world the postcondition
// which prelude/stub.rs assumes. The consequences across threads follow from `ginv`.
pub mod protocol {
use vstd::prelude::*;
use crate::stub::*;
use crate::consistent::*;

/// a value of the counter of written positions, with what is visible to a thread that acquires it
pub ghost struct Msg { pub n: int, pub known: ISet<Eid>, pub lbr: spec_fn(int) -> int, pub lbc: spec_fn(int) -> int }
pub ghost struct GS {
    /// last value of the reservation counter, capacity, maximum capacity of each vec
    pub res: spec_fn(int) -> int,
    pub cap: spec_fn(int) -> int,
    pub mcap: spec_fn(int) -> int,
    /// capacities each vec has had
    pub caps: ISet<Eid>,
    /// initialised positions
    pub init: ISet<Eid>,
    /// the values each element had, in order
    pub hist: spec_fn(Eid) -> Seq<Val>,
    /// modification order of the counter of written positions of each vec
    pub wri: spec_fn(int) -> Seq<Msg>,
    /// the world of each thread
    pub th: spec_fn(int) -> WS,
}
pub open spec fn imx(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn with(g: GS, t: int, w: WS) -> spec_fn(int) -> WS { |u: int| if u == t { w } else { (g.th)(u) } }

/// the world `w` of a thread agrees with the shared state (vecs that are shared: no exclusive access)
pub open spec fn local(g: GS, w: WS) -> bool {
    &&& inv(w) && w.mcap == g.mcap
    &&& forall|v: int| !#[trigger] w.excl.contains(v)
    &&& forall|e: Eid| #[trigger] w.known.contains(e) ==> g.init.contains(e)
    &&& forall|v: int| #[trigger] (w.lbr)(v) <= (g.res)(v)
    &&& forall|v: int| #[trigger] (w.lbc)(v) <= (g.cap)(v)
    &&& forall|e: Eid| #[trigger] w.owned.contains(e) ==> !g.init.contains(e)
    &&& forall|e: Eid| #[trigger] w.duty.contains(e) ==> w.owned.contains(e)
    &&& w.caps.subset_of(g.caps)
}
pub open spec fn msg_ok(g: GS, v: int, m: Msg) -> bool {
    &&& 0 <= m.n <= usize::MAX
    &&& forall|k: int| 0 <= k < m.n ==> m.known.contains(#[trigger] eid(v, k))
    &&& forall|e: Eid| #[trigger] m.known.contains(e) ==> g.init.contains(e) && 0 <= e.k < (m.lbr)(e.v) && e.k < (m.lbc)(e.v)
    &&& forall|u: int| 0 <= #[trigger] (m.lbr)(u) <= (g.res)(u)
    &&& forall|u: int| 0 <= #[trigger] (m.lbc)(u) <= (g.cap)(u)
}
pub open spec fn ginv(g: GS) -> bool {
    &&& forall|v: int| 0 <= #[trigger] (g.res)(v) <= usize::MAX
    &&& forall|v: int| 0 <= #[trigger] (g.cap)(v) <= usize::MAX
    &&& forall|e: Eid| #[trigger] g.init.contains(e) ==> 0 <= e.k < (g.res)(e.v) && e.k < (g.cap)(e.v)
    &&& forall|t: int| local(g, #[trigger] (g.th)(t))
    // C01: no position is handed out to two threads
    &&& forall|t: int, u: int, e: Eid| #[trigger] (g.th)(t).owned.contains(e) && #[trigger] (g.th)(u).owned.contains(e) ==> t == u
    // C02: every reserved position beyond the capacity is the growth duty of a thread
    &&& forall|e: Eid| (g.cap)(e.v) <= e.k < (g.res)(e.v) ==> #[trigger] duty_held(g, e)
    // C02: the position at a former capacity is reserved, and nobody's growth duty any longer
    &&& forall|v: int| g.caps.contains(#[trigger] eid(v, (g.cap)(v)))
    &&& forall|e: Eid| #[trigger] g.caps.contains(e) ==> e.k <= (g.cap)(e.v)
    &&& forall|e: Eid| #[trigger] g.caps.contains(e) && e.k < (g.cap)(e.v) ==> e.k < (g.res)(e.v)
    &&& forall|e: Eid, t: int| g.caps.contains(e) && #[trigger] (g.th)(t).duty.contains(e) ==> e.k >= (g.cap)(e.v)
    // C03: the counter of written positions never goes back, and what it covers is initialised
    &&& forall|v: int| #[trigger] (g.wri)(v).len() > 0
    &&& forall|v: int, i: int| 0 <= i < (g.wri)(v).len() ==> msg_ok(g, v, #[trigger] (g.wri)(v)[i])
    &&& forall|v: int, i: int, j: int| 0 <= i <= j < (g.wri)(v).len() ==> (#[trigger] (g.wri)(v)[i]).n <= (#[trigger] (g.wri)(v)[j]).n
    // C04: an element has a value exactly if it is initialised
    &&& forall|e: Eid| #[trigger] g.init.contains(e) <==> (g.hist)(e).len() > 0
    // C05: no element is held by two threads
    &&& forall|t: int, u: int, e: Eid| #[trigger] (g.th)(t).held.contains(e) && #[trigger] (g.th)(u).held.contains(e) ==> t == u
}
pub open spec fn duty_held(g: GS, e: Eid) -> bool { exists|t: int| #[trigger] (g.th)(t).duty.contains(e) }
/// only the world of `t` was changed
pub open spec fn only(g: GS, h: GS, t: int) -> bool { forall|u: int| u != t ==> #[trigger] (h.th)(u) == (g.th)(u) }

/// `fetch_add(n)` on the reservation counter: atomic read-modify-write of its last value
pub open spec fn do_fetch_add(g: GS, t: int, v: int, n: int) -> GS {
    let o = (g.th)(t); let r = (g.res)(v);
    let new = ISet::new(|e: Eid| e.v == v && r <= e.k < r + n);
    GS { res: set_at(g.res, v, r + n),
         th: with(g, t, WS { lbr: set_at(o.lbr, v, r + n), owned: o.owned.union(new), duty: o.duty.union(new), ..o }), ..g }
}
pub proof fn p_fetch_add(g: GS, t: int, v: int, n: int)
    requires ginv(g), 0 <= n, (g.res)(v) + n <= usize::MAX,
    ensures ({ let h = do_fetch_add(g, t, v, n); ginv(h) && only(g, h, t) && fetch_add_post((g.th)(t), (h.th)(t), v, n, (g.res)(v)) }),
{
    let h = do_fetch_add(g, t, v, n); let o = (g.th)(t); let f = (h.th)(t); let r = (g.res)(v);
    assert(local(g, o));
    assert(inv(f)) by {
        assert forall|u: int| 0 <= #[trigger] (f.lbr)(u) <= usize::MAX by { assert((o.lbr)(u) >= 0); assert((g.res)(u) >= 0); }
        assert forall|e: Eid| #[trigger] f.known.contains(e) implies 0 <= e.k < (f.lbr)(e.v) && e.k < (f.lbc)(e.v) && !f.owned.contains(e) by { assert((o.lbr)(e.v) <= (g.res)(e.v)); }
        assert forall|e: Eid| #[trigger] f.owned.contains(e) implies 0 <= e.k < (f.lbr)(e.v) by { assert((o.lbr)(e.v) <= (g.res)(e.v)); }
    }
    assert forall|u: int| local(h, #[trigger] (h.th)(u)) by { assert(local(g, (g.th)(u))); }
    assert forall|a: int, b: int, e: Eid| #[trigger] (h.th)(a).owned.contains(e) && #[trigger] (h.th)(b).owned.contains(e) implies a == b by {
        assert(local(g, (g.th)(a)) && local(g, (g.th)(b)));
        if (g.th)(a).owned.contains(e) { assert(((g.th)(a).lbr)(e.v) <= (g.res)(e.v)); }
        if (g.th)(b).owned.contains(e) { assert(((g.th)(b).lbr)(e.v) <= (g.res)(e.v)); }
    }
    assert forall|e: Eid| (h.cap)(e.v) <= e.k < (h.res)(e.v) implies #[trigger] duty_held(h, e) by {
        if e.k < (g.res)(e.v) {
            assert(duty_held(g, e));
            let u = choose|u: int| #[trigger] (g.th)(u).duty.contains(e);
            assert((h.th)(u).duty.contains(e));
        } else { assert((h.th)(t).duty.contains(e)); }
    }
    assert forall|x: int, i: int| 0 <= i < (h.wri)(x).len() implies msg_ok(h, x, #[trigger] (h.wri)(x)[i]) by { assert(msg_ok(g, x, (g.wri)(x)[i])); }
    assert forall|a: int, b: int, e: Eid| #[trigger] (h.th)(a).held.contains(e) && #[trigger] (h.th)(b).held.contains(e) implies a == b by {
        assert((g.th)(a).held.contains(e) && (g.th)(b).held.contains(e));
    }
    assert(ginv(h));
    assert forall|k: int| r <= k < r + n implies !o.owned.contains(#[trigger] eid(v, k)) && !o.known.contains(eid(v, k)) by { assert((o.lbr)(v) <= r); }
}
/// a load of the reservation counter reads its last value, or an older one that is not older than what the thread has seen
pub open spec fn do_load_res(g: GS, t: int, v: int, r: int) -> GS {
    let o = (g.th)(t);
    GS { th: with(g, t, WS { lbr: set_at(o.lbr, v, r), ..o }), ..g }
}
pub proof fn p_load_res(g: GS, t: int, v: int, r: int)
    requires ginv(g), ((g.th)(t).lbr)(v) <= r <= (g.res)(v),
    ensures ({ let h = do_load_res(g, t, v, r); ginv(h) && only(g, h, t) && load_res_post((g.th)(t), (h.th)(t), v, r) }),
{
    let h = do_load_res(g, t, v, r); let o = (g.th)(t); let f = (h.th)(t);
    assert(local(g, o));
    view_grows(g, h, t);
}
/// the capacity only grows
pub open spec fn do_capacity(g: GS, t: int, v: int, r: int) -> GS {
    let o = (g.th)(t);
    GS { th: with(g, t, WS { lbc: set_at(o.lbc, v, r), caps: o.caps.insert(eid(v, r)), ..o }), ..g }
}
pub proof fn p_capacity(g: GS, t: int, v: int, r: int)
    requires ginv(g), ((g.th)(t).lbc)(v) <= r, g.caps.contains(eid(v, r)),
    ensures ({ let h = do_capacity(g, t, v, r); let o = (g.th)(t); let f = (h.th)(t); ginv(h) && only(g, h, t) && quiet(o, f) && cap_seen(o, f, v, r) }),
{
    let h = do_capacity(g, t, v, r);
    assert(local(g, (g.th)(t)));
    view_grows(g, h, t);
}
/// a thread learns nothing but true facts: the global invariant is kept
proof fn view_grows(g: GS, h: GS, t: int)
    requires
        ginv(g), h == (GS { th: with(g, t, (h.th)(t)), ..g }),
        ({ let o = (g.th)(t); let f = (h.th)(t);
           &&& f == (WS { known: f.known, lbr: f.lbr, lbc: f.lbc, caps: f.caps, ..o })
           &&& o.caps.subset_of(f.caps) && f.caps.subset_of(g.caps)
           &&& o.known.subset_of(f.known)
           &&& forall|e: Eid| #[trigger] f.known.contains(e) ==> g.init.contains(e) && 0 <= e.k < (f.lbr)(e.v) && e.k < (f.lbc)(e.v)
           &&& forall|u: int| (o.lbr)(u) <= #[trigger] (f.lbr)(u) <= (g.res)(u)
           &&& forall|u: int| (o.lbc)(u) <= #[trigger] (f.lbc)(u) <= (g.cap)(u) }),
    ensures ginv(h), only(g, h, t), quiet((g.th)(t), (h.th)(t)),
{
    let o = (g.th)(t); let f = (h.th)(t);
    assert(local(g, o));
    assert forall|u: int| 0 <= #[trigger] (f.lbr)(u) <= usize::MAX by { assert((o.lbr)(u) >= 0); assert((g.res)(u) <= usize::MAX); }
    assert forall|u: int| 0 <= #[trigger] (f.lbc)(u) <= usize::MAX by { assert((o.lbc)(u) >= 0); assert((g.cap)(u) <= usize::MAX); }
    assert(inv(f));
    assert forall|u: int| local(h, #[trigger] (h.th)(u)) by { assert(local(g, (g.th)(u))); }
    assert forall|a: int, b: int, e: Eid| #[trigger] (h.th)(a).owned.contains(e) && #[trigger] (h.th)(b).owned.contains(e) implies a == b by {
        assert((g.th)(a).owned.contains(e) && (g.th)(b).owned.contains(e));
    }
    assert forall|a: int, b: int, e: Eid| #[trigger] (h.th)(a).held.contains(e) && #[trigger] (h.th)(b).held.contains(e) implies a == b by {
        assert((g.th)(a).held.contains(e) && (g.th)(b).held.contains(e));
    }
    assert forall|e: Eid| (h.cap)(e.v) <= e.k < (h.res)(e.v) implies #[trigger] duty_held(h, e) by {
        assert(duty_held(g, e));
        let u = choose|u: int| #[trigger] (g.th)(u).duty.contains(e);
        assert((h.th)(u).duty.contains(e));
    }
    assert forall|x: int, i: int| 0 <= i < (h.wri)(x).len() implies msg_ok(h, x, #[trigger] (h.wri)(x)[i]) by { assert(msg_ok(g, x, (g.wri)(x)[i])); }
}
/// an acquire load of the counter of written positions reads some message, and sees what its writer knew
pub open spec fn do_load_wri(g: GS, t: int, v: int, i: int, acquires: bool) -> GS {
    let o = (g.th)(t); let m = (g.wri)(v)[i];
    if acquires {
        GS { th: with(g, t, WS { known: o.known.union(m.known), lbr: |u: int| imx((o.lbr)(u), (m.lbr)(u)), lbc: |u: int| imx((o.lbc)(u), (m.lbc)(u)), ..o }), ..g }
    } else { g }
}
pub proof fn p_load_wri(g: GS, t: int, v: int, i: int, acquires: bool)
    requires ginv(g), 0 <= i < (g.wri)(v).len(),
    ensures ({ let h = do_load_wri(g, t, v, i, acquires); ginv(h) && only(g, h, t) && load_wri_post((g.th)(t), (h.th)(t), v, (g.wri)(v)[i].n, acquires) }),
{
    let h = do_load_wri(g, t, v, i, acquires); let o = (g.th)(t); let f = (h.th)(t); let m = (g.wri)(v)[i];
    assert(local(g, o) && msg_ok(g, v, m));
    if acquires {
        assert forall|u: int| (o.lbr)(u) <= #[trigger] (f.lbr)(u) <= (g.res)(u) by { assert((m.lbr)(u) <= (g.res)(u)); }
        assert forall|u: int| (o.lbc)(u) <= #[trigger] (f.lbc)(u) <= (g.cap)(u) by { assert((m.lbc)(u) <= (g.cap)(u)); }
        view_grows(g, h, t);
        assert(all_known(f, v, 0, m.n));
        if m.n > 0 { assert(f.known.contains(eid(v, m.n - 1))); } else { assert((f.lbr)(v) >= 0 && (f.lbc)(v) >= 0); }
    }
}
/// `fetch_max(n)` with release: a new last message, carrying what this thread knows (and, as a
/// read-modify-write, what the message before it carried)
pub open spec fn do_fetch_max(g: GS, t: int, v: int, n: int) -> GS {
    let o = (g.th)(t); let m = (g.wri)(v).last();
    let x = Msg { n: imx(m.n, n), known: m.known.union(o.known), lbr: |u: int| imx((o.lbr)(u), (m.lbr)(u)), lbc: |u: int| imx((o.lbc)(u), (m.lbc)(u)) };
    GS { wri: |u: int| if u == v { (g.wri)(v).push(x) } else { (g.wri)(u) }, ..g }
}
pub proof fn p_fetch_max(g: GS, t: int, v: int, n: int)
    requires ginv(g), 0 <= n <= usize::MAX, all_known((g.th)(t), v, 0, n),
    ensures ({ let h = do_fetch_max(g, t, v, n); ginv(h) && only(g, h, t) && quiet((g.th)(t), (h.th)(t)) }),
{
    let h = do_fetch_max(g, t, v, n); let o = (g.th)(t); let m = (g.wri)(v).last(); let x = (h.wri)(v).last();
    assert(local(g, o)); assert((g.wri)(v).len() > 0); assert(m == (g.wri)(v)[(g.wri)(v).len() - 1]); assert(msg_ok(g, v, m));
    assert forall|u: int| local(h, #[trigger] (h.th)(u)) by { assert(local(g, (g.th)(u))); }
    assert forall|e: Eid| (h.cap)(e.v) <= e.k < (h.res)(e.v) implies #[trigger] duty_held(h, e) by {
        assert(duty_held(g, e));
        let u = choose|u: int| #[trigger] (g.th)(u).duty.contains(e);
        assert((h.th)(u).duty.contains(e));
    }
    assert(msg_ok(h, v, x)) by {
        assert forall|u: int| 0 <= #[trigger] (x.lbr)(u) <= (g.res)(u) by { assert((o.lbr)(u) <= (g.res)(u)); assert((m.lbr)(u) <= (g.res)(u)); }
        assert forall|u: int| 0 <= #[trigger] (x.lbc)(u) <= (g.cap)(u) by { assert((o.lbc)(u) <= (g.cap)(u)); assert((m.lbc)(u) <= (g.cap)(u)); }
        assert forall|e: Eid| #[trigger] x.known.contains(e) implies g.init.contains(e) && 0 <= e.k < (x.lbr)(e.v) && e.k < (x.lbc)(e.v) by {
            assert((o.lbr)(e.v) <= (x.lbr)(e.v) && (m.lbr)(e.v) <= (x.lbr)(e.v));
        }
    }
    assert forall|y: int, i: int| 0 <= i < (h.wri)(y).len() implies msg_ok(h, y, #[trigger] (h.wri)(y)[i]) by {
        if y != v || i < (g.wri)(v).len() { assert(msg_ok(g, y, (g.wri)(y)[i])); assert((h.wri)(y)[i] == (g.wri)(y)[i]); }
    }
    assert forall|y: int, i: int, j: int| 0 <= i <= j < (h.wri)(y).len() implies (#[trigger] (h.wri)(y)[i]).n <= (#[trigger] (h.wri)(y)[j]).n by {
        let l = (g.wri)(y).len();
        if i < l { assert((h.wri)(y)[i] == (g.wri)(y)[i]); }
        if j < l { assert((h.wri)(y)[j] == (g.wri)(y)[j]); assert((g.wri)(y)[i].n <= (g.wri)(y)[j].n); } else if i < l { assert((g.wri)(y)[i].n <= (g.wri)(y)[l - 1].n); }
    }
    assert forall|y: int| #[trigger] (h.wri)(y).len() > 0 by { assert((g.wri)(y).len() > 0); }
}
pub open spec fn then(g: GS, e: Eid, x: Val) -> spec_fn(Eid) -> Seq<Val> { |d: Eid| if d == e { (g.hist)(e).push(x) } else { (g.hist)(d) } }
/// initialisation of a reserved position whose memory is secured
pub open spec fn do_init(g: GS, t: int, e: Eid, x: Val) -> GS {
    let o = (g.th)(t);
    GS { init: g.init.insert(e), hist: then(g, e, x), th: with(g, t, WS { known: o.known.insert(e), owned: o.owned.remove(e), log: o.log.push(Ev::Init(e, x)), ..o }), ..g }
}
/// it is not initialised before: every position is initialised at most once
pub proof fn p_init(g: GS, t: int, e: Eid, x: Val)
    requires ginv(g), ({ let o = (g.th)(t); o.owned.contains(e) && e.k < (o.lbc)(e.v) && !o.duty.contains(e) }),
    ensures !g.init.contains(e), (do_init(g, t, e, x).hist)(e) =~= seq![x], ({ let h = do_init(g, t, e, x); ginv(h) && only(g, h, t) && init_post((g.th)(t), (h.th)(t), e, x) }),
{
    let h = do_init(g, t, e, x); let o = (g.th)(t); let f = (h.th)(t);
    assert(local(g, o));
    assert(inv(f));
    assert((o.lbr)(e.v) <= (g.res)(e.v) && (o.lbc)(e.v) <= (g.cap)(e.v));
    assert forall|u: int| local(h, #[trigger] (h.th)(u)) by {
        assert(local(g, (g.th)(u)));
        if u != t { assert(!(g.th)(u).owned.contains(e)); }
    }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).owned.contains(d) && #[trigger] (h.th)(b).owned.contains(d) implies a == b by {
        assert((g.th)(a).owned.contains(d) && (g.th)(b).owned.contains(d));
    }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).held.contains(d) && #[trigger] (h.th)(b).held.contains(d) implies a == b by {
        assert((g.th)(a).held.contains(d) && (g.th)(b).held.contains(d));
    }
    assert forall|d: Eid| (h.cap)(d.v) <= d.k < (h.res)(d.v) implies #[trigger] duty_held(h, d) by {
        assert(duty_held(g, d));
        let u = choose|u: int| #[trigger] (g.th)(u).duty.contains(d);
        assert((h.th)(u).duty.contains(d));
    }
    assert forall|y: int, i: int| 0 <= i < (h.wri)(y).len() implies msg_ok(h, y, #[trigger] (h.wri)(y)[i]) by { assert(msg_ok(g, y, (g.wri)(y)[i])); }
}
/// a thread reads of the state of an element that it has a value (whatever the ordering: coherence of
/// that one atomic keeps this true for the thread, and for those who acquire from it)
pub open spec fn do_see(g: GS, t: int, e: Eid, c: int) -> GS {
    let o = (g.th)(t);
    GS { th: with(g, t, WS { known: o.known.insert(e), lbc: set_at(o.lbc, e.v, imx((o.lbc)(e.v), c)), ..o }), ..g }
}
/// (it has the element: its capacity is at least its position + 1)
pub proof fn p_see(g: GS, t: int, e: Eid)
    requires ginv(g), g.init.contains(e), e.k < ((g.th)(t).lbr)(e.v),
    ensures ({ let h = do_see(g, t, e, e.k + 1); ginv(h) && only(g, h, t) && quiet((g.th)(t), (h.th)(t)) && (h.th)(t).known.contains(e) }),
{
    let h = do_see(g, t, e, e.k + 1); let o = (g.th)(t); let f = (h.th)(t);
    assert(local(g, o));
    assert forall|u: int| (o.lbc)(u) <= #[trigger] (f.lbc)(u) <= (g.cap)(u) by { assert((o.lbc)(u) <= (g.cap)(u)); }
    assert forall|u: int| (o.lbr)(u) <= #[trigger] (f.lbr)(u) <= (g.res)(u) by { assert((o.lbr)(u) <= (g.res)(u)); }
    view_grows(g, h, t);
}
/// C02: the right to make a vec grow is held by one thread at a time, and only for its present capacity
pub proof fn p_grower_alone(g: GS, t: int, v: int, new: int)
    requires ginv(g), may_grow((g.th)(t), v, new),
    ensures (g.cap)(v) < new, (g.th)(t).duty.contains(eid(v, (g.cap)(v))),
        forall|u: int, m: int| #[trigger] may_grow((g.th)(u), v, m) ==> u == t,
{
    let c = choose|c: int| #[trigger] (g.th)(t).caps.contains(eid(v, c)) && (g.th)(t).duty.contains(eid(v, c)) && c < new;
    assert(local(g, (g.th)(t)));
    assert(g.caps.contains(eid(v, c)));
    assert(c == (g.cap)(v));
    assert forall|u: int, m: int| #[trigger] may_grow((g.th)(u), v, m) implies u == t by {
        let d = choose|d: int| #[trigger] (g.th)(u).caps.contains(eid(v, d)) && (g.th)(u).duty.contains(eid(v, d)) && d < m;
        assert(local(g, (g.th)(u)));
        assert(g.caps.contains(eid(v, d)));
        assert(d == (g.cap)(v));
        assert((g.th)(t).owned.contains(eid(v, c)) && (g.th)(u).owned.contains(eid(v, c)));
    }
}
/// the vec grows to `cap`: all positions up to the new capacity are secured with it for the threads that wait
pub open spec fn do_grow(g: GS, t: int, v: int, new: int, cap: int) -> GS {
    let o = (g.th)(t);
    let gone = ISet::new(|x: Eid| !(x.v == v && x.k < new));
    GS { cap: set_at(g.cap, v, cap), caps: g.caps.insert(eid(v, cap)), th: with(g, t, WS { lbc: set_at(o.lbc, v, cap), duty: o.duty.intersect(gone), ..o }), ..g }
}
pub proof fn p_grow(g: GS, t: int, v: int, new: int, cap: int)
    requires ginv(g), new <= cap <= usize::MAX, may_grow((g.th)(t), v, new),
    ensures ({ let h = do_grow(g, t, v, new, cap); ginv(h) && only(g, h, t) && grown_post((g.th)(t), (h.th)(t), v, new) }),
{
    let h = do_grow(g, t, v, new, cap); let o = (g.th)(t); let f = (h.th)(t);
    p_grower_alone(g, t, v, new);
    let c = (g.cap)(v);
    assert(local(g, o));
    assert((o.lbc)(v) <= (g.cap)(v));
    assert((o.lbc)(v) >= 0);
    assert(o.owned.contains(eid(v, c)));
    assert(c < (g.res)(v)) by { assert((o.lbr)(v) <= (g.res)(v)); }
    assert(inv(f));
    assert forall|u: int| local(h, #[trigger] (h.th)(u)) by {
        assert(local(g, (g.th)(u)));
        assert forall|x: int| #[trigger] ((h.th)(u).lbc)(x) <= (h.cap)(x) by { assert(((g.th)(u).lbc)(x) <= (g.cap)(x)); }
    }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).owned.contains(d) && #[trigger] (h.th)(b).owned.contains(d) implies a == b by {
        assert((g.th)(a).owned.contains(d) && (g.th)(b).owned.contains(d));
    }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).held.contains(d) && #[trigger] (h.th)(b).held.contains(d) implies a == b by {
        assert((g.th)(a).held.contains(d) && (g.th)(b).held.contains(d));
    }
    assert forall|d: Eid| (h.cap)(d.v) <= d.k < (h.res)(d.v) implies #[trigger] duty_held(h, d) by {
        assert(duty_held(g, d));
        let u = choose|u: int| #[trigger] (g.th)(u).duty.contains(d);
        assert((h.th)(u).duty.contains(d));
    }
    assert forall|x: int| h.caps.contains(#[trigger] eid(x, (h.cap)(x))) by { assert(g.caps.contains(eid(x, (g.cap)(x)))); }
    assert forall|e: Eid, u: int| h.caps.contains(e) && #[trigger] (h.th)(u).duty.contains(e) implies e.k >= (h.cap)(e.v) by {
        assert((g.th)(u).duty.contains(e));
        assert(local(g, (g.th)(u)));
        if e.v == v && e.k < cap {
            assert(g.caps.contains(e));
            assert(e.k >= c && e.k <= c);
            assert((g.th)(u).owned.contains(e) && o.owned.contains(eid(v, c)) && e == eid(v, c));
            assert(u == t);
        }
    }
    assert forall|y: int, i: int| 0 <= i < (h.wri)(y).len() implies msg_ok(h, y, #[trigger] (h.wri)(y)[i]) by {
        let m = (g.wri)(y)[i];
        assert(msg_ok(g, y, m));
        assert forall|u: int| 0 <= #[trigger] (m.lbc)(u) <= (h.cap)(u) by { assert((m.lbc)(u) <= (g.cap)(u)); }
    }
}
/// bookkeeping: a position that has memory is no growth duty
pub open spec fn do_discharge(g: GS, t: int, v: int) -> GS {
    let o = (g.th)(t);
    let gone = ISet::new(|x: Eid| !(x.v == v && x.k < (o.lbc)(v)));
    GS { th: with(g, t, WS { duty: o.duty.intersect(gone), ..o }), ..g }
}
pub proof fn p_discharge(g: GS, t: int, v: int)
    requires ginv(g),
    ensures ({ let h = do_discharge(g, t, v); ginv(h) && only(g, h, t) && discharge_post((g.th)(t), (h.th)(t), v) }),
{
    let h = do_discharge(g, t, v); let o = (g.th)(t); let f = (h.th)(t);
    assert(local(g, o));
    assert((o.lbc)(v) <= (g.cap)(v));
    assert(inv(f));
    assert forall|u: int| local(h, #[trigger] (h.th)(u)) by { assert(local(g, (g.th)(u))); }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).owned.contains(d) && #[trigger] (h.th)(b).owned.contains(d) implies a == b by {
        assert((g.th)(a).owned.contains(d) && (g.th)(b).owned.contains(d));
    }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).held.contains(d) && #[trigger] (h.th)(b).held.contains(d) implies a == b by {
        assert((g.th)(a).held.contains(d) && (g.th)(b).held.contains(d));
    }
    assert forall|d: Eid| (h.cap)(d.v) <= d.k < (h.res)(d.v) implies #[trigger] duty_held(h, d) by {
        assert(duty_held(g, d));
        let u = choose|u: int| #[trigger] (g.th)(u).duty.contains(d);
        assert((h.th)(u).duty.contains(d));
    }
    assert forall|e: Eid, u: int| h.caps.contains(e) && #[trigger] (h.th)(u).duty.contains(e) implies e.k >= (h.cap)(e.v) by { assert((g.th)(u).duty.contains(e)); }
    assert forall|y: int, i: int| 0 <= i < (h.wri)(y).len() implies msg_ok(h, y, #[trigger] (h.wri)(y)[i]) by { assert(msg_ok(g, y, (g.wri)(y)[i])); }
}
/// exclusive access to an element that nobody holds
pub open spec fn do_lock(g: GS, t: int, e: Eid) -> GS {
    let o = (g.th)(t);
    GS { th: with(g, t, WS { held: o.held.push(e), ..o }), ..g }
}
pub proof fn p_lock(g: GS, t: int, e: Eid)
    requires ginv(g), forall|u: int| !#[trigger] (g.th)(u).held.contains(e),
    ensures ({ let h = do_lock(g, t, e); ginv(h) && only(g, h, t) && still((g.th)(t), (h.th)(t)) && (h.th)(t).held == (g.th)(t).held.push(e) }),
{
    let h = do_lock(g, t, e); let o = (g.th)(t); let f = (h.th)(t);
    assert(local(g, o));
    assert(inv(f));
    assert forall|u: int| local(h, #[trigger] (h.th)(u)) by { assert(local(g, (g.th)(u))); }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).owned.contains(d) && #[trigger] (h.th)(b).owned.contains(d) implies a == b by {
        assert((g.th)(a).owned.contains(d) && (g.th)(b).owned.contains(d));
    }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).held.contains(d) && #[trigger] (h.th)(b).held.contains(d) implies a == b by {
        lem_push(o.held, e, d);
        assert(d != e ==> (g.th)(a).held.contains(d) && (g.th)(b).held.contains(d));
        if d == e { assert(!(g.th)(a).held.contains(d) && !(g.th)(b).held.contains(d)); }
    }
    assert forall|d: Eid| (h.cap)(d.v) <= d.k < (h.res)(d.v) implies #[trigger] duty_held(h, d) by {
        assert(duty_held(g, d));
        let u = choose|u: int| #[trigger] (g.th)(u).duty.contains(d);
        assert((h.th)(u).duty.contains(d));
    }
    assert forall|y: int, i: int| 0 <= i < (h.wri)(y).len() implies msg_ok(h, y, #[trigger] (h.wri)(y)[i]) by { assert(msg_ok(g, y, (g.wri)(y)[i])); }
}
/// exclusive access is given up
pub open spec fn do_unlock(g: GS, t: int, held: Seq<Eid>) -> GS {
    let o = (g.th)(t);
    GS { th: with(g, t, WS { held, ..o }), ..g }
}
pub proof fn p_unlock(g: GS, t: int, held: Seq<Eid>)
    requires ginv(g), forall|e: Eid| #[trigger] held.contains(e) ==> (g.th)(t).held.contains(e),
    ensures ({ let h = do_unlock(g, t, held); ginv(h) && only(g, h, t) && still((g.th)(t), (h.th)(t)) && (h.th)(t).held == held }),
{
    let h = do_unlock(g, t, held); let o = (g.th)(t); let f = (h.th)(t);
    assert(local(g, o));
    assert(inv(f));
    assert forall|u: int| local(h, #[trigger] (h.th)(u)) by { assert(local(g, (g.th)(u))); }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).owned.contains(d) && #[trigger] (h.th)(b).owned.contains(d) implies a == b by {
        assert((g.th)(a).owned.contains(d) && (g.th)(b).owned.contains(d));
    }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).held.contains(d) && #[trigger] (h.th)(b).held.contains(d) implies a == b by {
        assert((g.th)(a).held.contains(d) && (g.th)(b).held.contains(d));
    }
    assert forall|d: Eid| (h.cap)(d.v) <= d.k < (h.res)(d.v) implies #[trigger] duty_held(h, d) by {
        assert(duty_held(g, d));
        let u = choose|u: int| #[trigger] (g.th)(u).duty.contains(d);
        assert((h.th)(u).duty.contains(d));
    }
    assert forall|y: int, i: int| 0 <= i < (h.wri)(y).len() implies msg_ok(h, y, #[trigger] (h.wri)(y)[i]) by { assert(msg_ok(g, y, (g.wri)(y)[i])); }
}
/// a change of the value of one element, under exclusive access to it: it replaces the value the change
/// before it left, so that no value is lost or seen twice
pub open spec fn do_effect(g: GS, t: int, e: Eid, ev: Ev, x: Val) -> GS {
    let o = (g.th)(t);
    GS { hist: then(g, e, x), th: with(g, t, WS { log: o.log.push(ev), ..o }), ..g }
}
pub open spec fn replaces(g: GS, e: Eid, ev: Ev, x: Val) -> bool {
    ev == Ev::Set(e, x) || ev == Ev::Upd(e, x) || ev == Ev::Rep(e, (g.hist)(e).last(), x)
}
pub proof fn p_effect(g: GS, t: int, e: Eid, ev: Ev, x: Val)
    requires ginv(g), g.init.contains(e), replaces(g, e, ev, x), forall|u: int| u != t ==> !#[trigger] (g.th)(u).held.contains(e),
    ensures ({ let h = do_effect(g, t, e, ev, x); ginv(h) && only(g, h, t) && effect((g.th)(t), (h.th)(t), e, ev)
        && (h.hist)(e) == (g.hist)(e).push(x) && forall|d: Eid| d != e ==> #[trigger] (h.hist)(d) == (g.hist)(d) }),
{
    let h = do_effect(g, t, e, ev, x);
    assert(local(g, (g.th)(t)));
    values_change(g, h, t);
}
/// the values of two different elements that this thread holds are exchanged
pub open spec fn do_swap(g: GS, t: int, a: Eid, b: Eid) -> GS {
    let o = (g.th)(t);
    GS { hist: |d: Eid| if d == a { (g.hist)(a).push((g.hist)(b).last()) } else if d == b { (g.hist)(b).push((g.hist)(a).last()) } else { (g.hist)(d) },
         th: with(g, t, WS { log: o.log.push(Ev::Swap(a, b)), ..o }), ..g }
}
pub proof fn p_swap(g: GS, t: int, a: Eid, b: Eid)
    requires ginv(g), a != b, g.init.contains(a), g.init.contains(b), (g.th)(t).held.contains(a), (g.th)(t).held.contains(b),
    ensures ({ let h = do_swap(g, t, a, b); ginv(h) && only(g, h, t) && swap_post((g.th)(t), (h.th)(t), a, b)
        && (h.hist)(a).last() == (g.hist)(b).last() && (h.hist)(b).last() == (g.hist)(a).last()
        && forall|d: Eid| d != a && d != b ==> #[trigger] (h.hist)(d) == (g.hist)(d) }),
{
    let h = do_swap(g, t, a, b);
    assert(local(g, (g.th)(t)));
    values_change(g, h, t);
}
proof fn values_change(g: GS, h: GS, t: int)
    requires
        ginv(g), h == (GS { hist: h.hist, th: with(g, t, WS { log: (h.th)(t).log, ..(g.th)(t) }), ..g }),
        forall|e: Eid| (g.hist)(e).len() > 0 <==> #[trigger] (h.hist)(e).len() > 0,
    ensures ginv(h), only(g, h, t),
{
    let o = (g.th)(t); let f = (h.th)(t);
    assert(local(g, o));
    assert(inv(f));
    assert forall|u: int| local(h, #[trigger] (h.th)(u)) by { assert(local(g, (g.th)(u))); }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).owned.contains(d) && #[trigger] (h.th)(b).owned.contains(d) implies a == b by {
        assert((g.th)(a).owned.contains(d) && (g.th)(b).owned.contains(d));
    }
    assert forall|a: int, b: int, d: Eid| #[trigger] (h.th)(a).held.contains(d) && #[trigger] (h.th)(b).held.contains(d) implies a == b by {
        assert((g.th)(a).held.contains(d) && (g.th)(b).held.contains(d));
    }
    assert forall|d: Eid| (h.cap)(d.v) <= d.k < (h.res)(d.v) implies #[trigger] duty_held(h, d) by {
        assert(duty_held(g, d));
        let u = choose|u: int| #[trigger] (g.th)(u).duty.contains(d);
        assert((h.th)(u).duty.contains(d));
    }
    assert forall|e: Eid| #[trigger] h.init.contains(e) <==> (h.hist)(e).len() > 0 by { assert(g.init.contains(e) <==> (g.hist)(e).len() > 0); }
    assert forall|y: int, i: int| 0 <= i < (h.wri)(y).len() implies msg_ok(h, y, #[trigger] (h.wri)(y)[i]) by { assert(msg_ok(g, y, (g.wri)(y)[i])); }
}

// ---------------------------------------------------------------- consequences across threads
/// C01, C02: a position that is reserved but not written belongs to exactly one thread, and if it lies
/// beyond the capacity exactly one thread has the duty to make the vec grow for it: whoever waits for
/// the position at the capacity waits for that thread
pub proof fn p_one_grower(g: GS, v: int)
    requires ginv(g), (g.cap)(v) < (g.res)(v),
    ensures exists|t: int| #[trigger] (g.th)(t).duty.contains(eid(v, (g.cap)(v)))
        && forall|u: int| #[trigger] (g.th)(u).duty.contains(eid(v, (g.cap)(v))) ==> u == t,
{
    let e = eid(v, (g.cap)(v));
    assert(duty_held(g, e));
    let t = choose|t: int| #[trigger] (g.th)(t).duty.contains(e);
    assert(local(g, (g.th)(t)));
    assert((g.th)(t).owned.contains(e));
    assert forall|u: int| #[trigger] (g.th)(u).duty.contains(e) implies u == t by { assert(local(g, (g.th)(u))); assert((g.th)(u).owned.contains(e)); }
}
/// C05, C08: threads that wait for elements do not wait for each other in a circle: thread `ts[i]` waits
/// for `es[i]`, which is held by thread `ts[i + 1]` (the last one waits for the first)
pub proof fn p_no_circle(g: GS, ts: Seq<int>, es: Seq<Eid>)
    requires ginv(g), ts.len() == es.len(), ts.len() > 0,
        forall|i: int| 0 <= i < ts.len() ==> can_lock((g.th)(#[trigger] ts[i]), es[i]),
        forall|i: int| 0 <= i < ts.len() - 1 ==> (g.th)(ts[i + 1]).held.contains(#[trigger] es[i]),
    ensures !(g.th)(ts[0]).held.contains(es[ts.len() - 1]),
{
    let n = ts.len() as int;
    p_chain(g, ts, es, n - 1);
    if (g.th)(ts[0]).held.contains(es[n - 1]) {
        let h = (g.th)(ts[0]).held;
        let i = choose|i: int| 0 <= i < h.len() && h[i] == es[n - 1];
        assert(can_lock((g.th)(ts[0]), es[0]));
        assert(addr(h[i]) < addr(es[0]));
    }
}
proof fn p_chain(g: GS, ts: Seq<int>, es: Seq<Eid>, j: int)
    requires ts.len() == es.len(), 0 <= j < ts.len(),
        forall|i: int| 0 <= i < ts.len() ==> can_lock((g.th)(#[trigger] ts[i]), es[i]),
        forall|i: int| 0 <= i < ts.len() - 1 ==> (g.th)(ts[i + 1]).held.contains(#[trigger] es[i]),
    ensures addr(es[0]) <= addr(es[j]),
    decreases j,
{
    if j > 0 {
        p_chain(g, ts, es, j - 1);
        let h = (g.th)(ts[j]).held;
        assert((g.th)(ts[(j - 1) + 1]).held.contains(es[j - 1]));
        let i = choose|i: int| 0 <= i < h.len() && h[i] == es[j - 1];
        assert(can_lock((g.th)(ts[j]), es[j]));
        assert(addr(h[i]) < addr(es[j]));
    }
}
/// C03: a thread that acquires a value of the counter of written positions sees at least what any thread
/// acquired before it in the modification order; the count never goes back
pub proof fn p_len_monotone(g: GS, v: int, i: int, j: int)
    requires ginv(g), 0 <= i <= j < (g.wri)(v).len(),
    ensures (g.wri)(v)[i].n <= (g.wri)(v)[j].n, forall|k: int| 0 <= k < (g.wri)(v)[j].n ==> g.init.contains(#[trigger] eid(v, k)),
{
    assert(msg_ok(g, v, (g.wri)(v)[j]));
}
/// before anything is shared: an empty vec in every world
pub proof fn p_start(mcap: spec_fn(int) -> int) ensures exists|g: GS| #[trigger] ginv(g) && g.mcap == mcap
{
    let z = |v: int| 0int;
    let w = WS { known: ISet::empty(), lbr: z, lbc: z, mcap, owned: ISet::empty(), duty: ISet::empty(), caps: ISet::empty(),
        log: Seq::empty(), held: Seq::empty(), excl: ISet::empty(), xres: z, xwri: z, xval: |e: Eid| None, seen: ISet::empty(), moved: None };
    let m = Msg { n: 0, known: ISet::empty(), lbr: z, lbc: z };
    let caps = ISet::new(|e: Eid| e.k == 0);
    let g = GS { res: z, cap: z, mcap, caps, init: ISet::empty(), hist: |e: Eid| Seq::empty(), wri: |v: int| seq![m], th: |t: int| w };
    assert forall|t: int| local(g, #[trigger] (g.th)(t)) by { assert((g.th)(t) == w); assert(inv(w)); }
    assert forall|v: int, i: int| 0 <= i < (g.wri)(v).len() implies msg_ok(g, v, #[trigger] (g.wri)(v)[i]) by { assert((g.wri)(v)[i] == m); }
    assert(ginv(g));
}
} // mod protocol
