// ============================================================================================
// The trusted prelude: ghost world, assumed contracts of the dependencies (std, orx-*), and the
// shadow traits that generic user code is abstracted by. Nothing in here is extracted from /repo.
// Conventions: every method is named `w_<name>` and takes the ghost world as its last argument.
// ============================================================================================
pub mod stub {
use vstd::prelude::*;
pub use core::marker::PhantomData;
use crate::krate::*;
pub use crate::krate::w_vec_range_limits;

// ---------------------------------------------------------------- identities and values
pub ghost struct Eid { pub v: int, pub k: int }

#[verifier::external_body]
pub ghost struct Val { x: () }
pub uninterp spec fn enc<A>(a: A) -> Val;
pub uninterp spec fn dec<A>(v: Val) -> A;
pub broadcast axiom fn ax_enc<A>(a: A) ensures dec::<A>(#[trigger] enc::<A>(a)) == a;

/// the virtual address of a position; injective because every element contains an atomic (not a ZST)
pub uninterp spec fn addr(e: Eid) -> int;
pub broadcast axiom fn ax_addr(a: Eid, b: Eid) ensures #[trigger] addr(a) == #[trigger] addr(b) ==> a == b;

/// `v` has been the value of the element `e` at some moment of the execution
pub uninterp spec fn saw<T>(e: Eid, v: T) -> bool;
/// identity of the memory a raw pointer or reference refers to
pub uninterp spec fn ident<A>(a: A) -> Eid;

pub ghost enum Ev {
    Init(Eid, Val),
    Set(Eid, Val),
    Rep(Eid, Val, Val),
    Upd(Eid, Val),
    Swap(Eid, Eid),
    Take(Eid),
    Reserve(int, int, int),
}

pub ghost struct WS {
    /// positions whose initialisation is visible to this thread
    pub known: ISet<Eid>,
    /// this thread's lower bounds of the number of reserved positions / of the capacity of each vec
    pub lbr: spec_fn(int) -> int,
    pub lbc: spec_fn(int) -> int,
    /// maximum capacity of each vec
    pub mcap: spec_fn(int) -> int,
    /// positions reserved by this thread and not yet initialised
    pub owned: ISet<Eid>,
    /// reserved positions for which this thread has not yet secured the memory (growth duty)
    pub duty: ISet<Eid>,
    /// capacities of vecs this thread has read: `eid(v, c)` for a capacity `c` of `v`
    pub caps: ISet<Eid>,
    /// atomic effects of this thread on elements, in program order
    pub log: Seq<Ev>,
    /// elements this thread has exclusive access to right now, in order of acquisition
    pub held: Seq<Eid>,
    /// vecs this thread has exclusive access to (&mut or owned, and not reachable by user code that is
    /// called back), and the exact state of those
    pub excl: ISet<int>,
    pub xres: spec_fn(int) -> int,
    pub xwri: spec_fn(int) -> int,
    pub xval: spec_fn(Eid) -> Option<Val>,
    /// elements this thread has loaded as initialised with acquire semantics
    pub seen: ISet<Eid>,
    /// value of the element marked as taken last, which is still to be moved out
    pub moved: Option<Val>,
}

#[verifier::external_body]
pub tracked struct World { x: () }

impl World {
    pub uninterp spec fn view(&self) -> WS;
    /// the world seen by a closure called after (or during) the snapshot `g`
    pub axiom fn resume(g: WS) -> (tracked r: World)
        ensures resume_post(g, r@);
}

/// what holds of every world (prelude/consistent.rs: every assumed contract below keeps it satisfiable)
pub open spec fn inv(w: WS) -> bool {
    &&& forall|e: Eid| #[trigger] w.known.contains(e) ==> 0 <= e.k < (w.lbr)(e.v) && e.k < (w.lbc)(e.v) && !w.owned.contains(e)
    // exclusive vecs: a value can only be at a reserved position that has memory
    &&& forall|e: Eid| #[trigger] (w.xval)(e) is Some && w.excl.contains(e.v) ==> 0 <= e.k < (w.xres)(e.v) && e.k < (w.lbc)(e.v) && !w.owned.contains(e)
    &&& forall|e: Eid| w.known.contains(e) && w.excl.contains(e.v) ==> #[trigger] (w.xval)(e) is Some
    &&& forall|v: int| 0 <= #[trigger] (w.lbr)(v) <= usize::MAX
    &&& forall|v: int| w.excl.contains(v) ==> #[trigger] (w.lbr)(v) <= (w.xres)(v) <= usize::MAX
    &&& forall|v: int| w.excl.contains(v) ==> 0 <= #[trigger] (w.xwri)(v) <= usize::MAX
    &&& forall|v: int| 0 <= #[trigger] (w.lbc)(v) <= usize::MAX
    &&& forall|e: Eid| #[trigger] w.owned.contains(e) ==> 0 <= e.k < (w.lbr)(e.v)
    &&& forall|e: Eid| #[trigger] w.duty.contains(e) ==> 0 <= e.k < usize::MAX
}
pub broadcast axiom fn ax_world(w: World) ensures inv(#[trigger] w@);

pub broadcast group ax_all { lem_push, ax_enc, ax_addr, ax_world, ax_opt, ax_oval }


// ---------------------------------------------------------------- frame predicates
/// knowledge only grows
pub open spec fn kn(a: WS, b: WS) -> bool {
    &&& a.known.subset_of(b.known)
    &&& a.caps.subset_of(b.caps)
    &&& forall|v: int| (a.lbr)(v) <= #[trigger] (b.lbr)(v)
    &&& forall|v: int| (a.lbc)(v) <= #[trigger] (b.lbc)(v)
    &&& a.mcap == b.mcap
}
pub open spec fn xsame(a: WS, b: WS) -> bool {
    &&& a.excl == b.excl
    &&& forall|v: int| a.excl.contains(v) ==> #[trigger] (b.xres)(v) == (a.xres)(v)
    &&& forall|e: Eid| a.excl.contains(e.v) ==> #[trigger] (b.xval)(e) == (a.xval)(e)
    &&& forall|v: int| a.excl.contains(v) ==> #[trigger] (b.xwri)(v) == (a.xwri)(v) || all_known(b, v, 0, (b.xwri)(v))
}
pub open spec fn xsame_ex(a: WS, b: WS) -> bool {
    &&& forall|v: int| a.excl.contains(v) ==> #[trigger] (b.xres)(v) == (a.xres)(v)
    &&& forall|e: Eid| a.excl.contains(e.v) ==> #[trigger] (b.xval)(e) == (a.xval)(e)
    &&& forall|v: int| a.excl.contains(v) ==> #[trigger] (b.xwri)(v) == (a.xwri)(v) || all_known(b, v, 0, (b.xwri)(v))
}
/// exclusive state of vecs other than `v0` is unchanged
pub open spec fn xsame_but(a: WS, b: WS, v0: int) -> bool {
    &&& a.excl == b.excl
    &&& forall|v: int| a.excl.contains(v) && v != v0 ==> #[trigger] (b.xres)(v) == (a.xres)(v)
    &&& forall|e: Eid| a.excl.contains(e.v) && e.v != v0 ==> #[trigger] (b.xval)(e) == (a.xval)(e)
    &&& forall|v: int| a.excl.contains(v) ==> #[trigger] (b.xwri)(v) == (a.xwri)(v) || all_known(b, v, 0, (b.xwri)(v))
}
/// no effect on any element, reservation, counter or lock
pub open spec fn quiet(a: WS, b: WS) -> bool { still(a, b) && a.held == b.held }
/// no effect on any element, reservation or counter
pub open spec fn still(a: WS, b: WS) -> bool {
    &&& kn(a, b) &&& xsame(a, b)
    &&& forall|v: int| a.excl.contains(v) ==> #[trigger] (b.lbc)(v) == (a.lbc)(v)
    &&& a.owned == b.owned &&& a.duty == b.duty &&& a.log == b.log
}
/// like quiet, but element `e` had the effects `evs`
pub open spec fn effect(a: WS, b: WS, e: Eid, ev: Ev) -> bool {
    &&& kn(a, b) &&& xsame_but(a, b, e.v)
    &&& (a.excl.contains(e.v) ==> (a.xres)(e.v) == (b.xres)(e.v))
    &&& a.owned == b.owned &&& a.duty == b.duty &&& a.held == b.held
    &&& b.log == a.log.push(ev)
}
/// only element values (of any element) were changed, as recorded in the log
pub open spec fn writes(a: WS, b: WS, evs: Seq<Ev>) -> bool {
    &&& kn(a, b) &&& a.excl == b.excl
    &&& a.owned == b.owned &&& a.duty == b.duty &&& a.held == b.held
    &&& b.log =~= a.log + evs
}
/// `cap` is a capacity the vec had between the worlds `a` and `b`
pub open spec fn cap_seen(a: WS, b: WS, v: int, cap: int) -> bool { (a.lbc)(v) <= cap <= (b.lbc)(v) && cap >= 0 && b.caps.contains(eid(v, cap)) }
pub broadcast proof fn lem_push(s: Seq<Eid>, a: Eid, b: Eid)
    ensures #[trigger] s.push(a).contains(b) <==> a == b || s.contains(b),
{
    if s.contains(b) { let i = choose|i: int| 0 <= i < s.len() && s[i] == b; assert(s.push(a)[i] == b); }
    if a == b { assert(s.push(a)[s.len() as int] == b); }
    if s.push(a).contains(b) { let i = choose|i: int| 0 <= i < s.push(a).len() && s.push(a)[i] == b; if i < s.len() { assert(s[i] == b); } }
}
/// user code may run (it may call back into the vec and it may panic): no reserved position of this
/// thread may lack its memory
pub open spec fn user_ok(a: WS) -> bool { forall|e: Eid| !#[trigger] a.duty.contains(e) }
/// nothing in flight and no element held: the state in which public functions are called
pub open spec fn idle(a: WS) -> bool { user_ok(a) && a.held.len() == 0 && wri_ok(a) }
/// the number of written positions of exclusive vecs is truthful
pub open spec fn wri_ok(a: WS) -> bool { forall|v: int| a.excl.contains(v) ==> all_known(a, v, 0, #[trigger] (a.xwri)(v)) }
pub open spec fn none_owned(a: WS, v: int) -> bool { forall|e: Eid| #[trigger] a.owned.contains(e) ==> e.v != v }
/// acquiring `e` cannot deadlock: `e` is not held by this thread, and elements are acquired by address
pub open spec fn can_lock(a: WS, e: Eid) -> bool { forall|i: int| 0 <= i < a.held.len() ==> addr(#[trigger] a.held[i]) < addr(e) }
pub open spec fn all_known(a: WS, v: int, from: int, to: int) -> bool {
    forall|k: int| from <= k < to ==> a.known.contains(#[trigger] eid(v, k))
}
/// always true; marks an index so that quantified facts about iteration apply to it
pub open spec fn at(k: int) -> bool { true }
pub open spec fn eid(v: int, k: int) -> Eid { Eid { v, k } }
pub broadcast proof fn lem_eid(e: Eid) ensures #![trigger e.v, e.k] e == eid(e.v, e.k) {}

pub open spec fn inits<T>(v: int, from: int, s: Seq<T>) -> Seq<Ev> { Seq::new(s.len(), |k: int| Ev::Init(eid(v, from + k), enc(s[k]))) }

/// the reserved position `e` was initialised with `val`
pub open spec fn init_post(o: WS, f: WS, e: Eid, val: Val) -> bool {
    &&& kn(o, f) && xsame_but(o, f, e.v)
    &&& f.duty == o.duty && f.held == o.held
    &&& f.log == o.log.push(Ev::Init(e, val))
    &&& forall|x: Eid| #[trigger] f.owned.contains(x) <==> (o.owned.contains(x) && x != e)
    &&& f.known.contains(e)
    &&& (o.excl.contains(e.v) ==> (f.xres)(e.v) == (o.xres)(e.v) && (f.xval)(e) == Some(val)
          && forall|x: Eid| x.v == e.v && x != e ==> #[trigger] (f.xval)(x) == (o.xval)(x))
}
/// the value of `e` was taken out in place, under exclusive access
pub open spec fn take_post(o: WS, f: WS, e: Eid, r: Option<Val>) -> bool {
    &&& f.known == o.known.remove(e)
    &&& f.lbr == o.lbr && f.lbc == o.lbc && f.mcap == o.mcap && f.excl == o.excl
    &&& f.owned == o.owned && f.duty == o.duty && f.held == o.held
    &&& f.xres == o.xres && f.xwri == o.xwri
    &&& (f.xval)(e) is None && r == (o.xval)(e)
    &&& forall|x: Eid| x != e ==> #[trigger] (f.xval)(x) == (o.xval)(x)
    &&& f.log == (if r is Some { o.log.push(Ev::Take(e)) } else { o.log })
}
/// the memory of the reserved positions `from..from + n` was secured
pub open spec fn secured_post(o: WS, f: WS, v: int, from: int, n: int) -> bool {
    &&& kn(o, f) && xsame(o, f)
    &&& f.owned == o.owned && f.log == o.log && f.held == o.held
    &&& (n > 0 ==> from + n <= (f.lbc)(v) && from + n <= (f.mcap)(v))
    &&& forall|x: Eid| #[trigger] f.duty.contains(x) ==> (o.duty.contains(x) && !(x.v == v && from <= x.k < from + n))
}
/// there is memory for the positions `from..from + n`
pub open spec fn ready_post(o: WS, f: WS, v: int, from: int, n: int) -> bool {
    &&& kn(o, f) && xsame(o, f)
    &&& f.owned == o.owned && f.log == o.log && f.held == o.held
    &&& (n > 0 ==> from + n <= (f.lbc)(v) && from + n <= (f.mcap)(v))
    &&& f.duty.subset_of(o.duty)
}
/// the right to make the vec grow to `new`: this thread has read the capacity `c`, and the position `c`
/// is its own growth duty (prelude/protocol.rs: then `c` is the capacity, and nobody else has the right)
pub open spec fn may_grow(o: WS, v: int, new: int) -> bool {
    exists|c: int| #[trigger] o.caps.contains(eid(v, c)) && o.duty.contains(eid(v, c)) && c < new
}
/// the vec was made to grow to at least `new`
pub open spec fn grown_post(o: WS, f: WS, v: int, new: int) -> bool {
    &&& kn(o, f) && xsame(o, f)
    &&& f.owned == o.owned && f.log == o.log && f.held == o.held
    &&& new <= (f.lbc)(v)
    &&& forall|x: Eid| #[trigger] f.duty.contains(x) <==> (o.duty.contains(x) && !(x.v == v && x.k < new))
}
/// a position that has memory is no growth duty any longer
pub open spec fn discharge_post(o: WS, f: WS, v: int) -> bool {
    &&& kn(o, f) && xsame(o, f)
    &&& f.owned == o.owned && f.log == o.log && f.held == o.held && f.lbc == o.lbc
    &&& forall|x: Eid| #[trigger] f.duty.contains(x) <==> (o.duty.contains(x) && !(x.v == v && x.k < (o.lbc)(v)))
}
pub axiom fn discharge(tracked w: &mut World, v: int)
    ensures discharge_post(old(w)@, final(w)@, v);
pub open spec fn reserve_post(o: WS, f: WS, v: int, len: int, max: int, r: int) -> bool {
    &&& f.log == o.log.push(Ev::Reserve(v, len, max))
    &&& f.held == o.held && f.owned == o.owned && f.duty == o.duty && f.known == o.known
    &&& xsame(o, f)
    &&& r == (f.mcap)(v) && r >= max && r >= (o.mcap)(v) && (f.lbc)(v) >= (o.lbc)(v)
    &&& forall|u: int| u != v ==> #[trigger] (f.mcap)(u) == (o.mcap)(u)
}
/// `v` is a new vec with the content `s`
pub open spec fn new_post(o: WS, f: WS, v: int, s: Seq<Option<Val>>, max: int) -> bool {
    &&& kn(o, f) && f.log == o.log && f.held == o.held && f.owned == o.owned && f.duty == o.duty
    &&& !o.excl.contains(v) && f.excl == o.excl.insert(v)
    &&& xsame_ex(o, f)
    &&& (f.xres)(v) == s.len() && (f.xwri)(v) == s.len()
    &&& (f.mcap)(v) == max && s.len() <= (f.lbc)(v)
    &&& forall|k: int| 0 <= k < s.len() && s[k] is Some ==> f.known.contains(#[trigger] eid(v, k))
    &&& forall|k: int| 0 <= k < s.len() ==> (f.xval)(#[trigger] eid(v, k)) == s[k]
    &&& forall|k: int| k >= s.len() ==> (f.xval)(#[trigger] eid(v, k)) is None
}
/// the contents of the elements `a` and `b` were exchanged
pub open spec fn swap_post(o: WS, f: WS, a: Eid, b: Eid) -> bool {
    &&& kn(o, f) && f.excl == o.excl && f.owned == o.owned && f.duty == o.duty && f.held == o.held
    &&& f.xres == o.xres && f.xwri == o.xwri
    &&& f.log == o.log.push(Ev::Swap(a, b))
}
/// user code runs here
#[verifier::external_body]
pub fn w_user(Tracked(w): Tracked<&mut World>)
    requires user_ok(old(w)@),
    ensures quiet(old(w)@, final(w)@),
{ }

pub fn rt_assert(c: bool, Ghost(may_panic): Ghost<bool>)
    requires c || may_panic,
    ensures c,
{ if !c { rt_panic(Ghost(may_panic)) } }
#[verifier::external_body]
pub fn rt_panic(Ghost(may_panic): Ghost<bool>) -> !
    requires may_panic,
{ panic!() }

// ---------------------------------------------------------------- std: atomics, cmp, mem, fmt
pub mod xcore {
    pub mod cmp {
        use vstd::prelude::*;
        #[derive(Clone, Copy)]
        pub enum Ordering { Less, Equal, Greater }
        pub use super::super::{PartialEq};
    }
    pub mod sync { pub mod atomic {
        use vstd::prelude::*;
        #[derive(Clone, Copy)]
        pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
        pub use super::super::super::{AtomicUsize, AtomicU8};
    } }
    pub mod ops { pub use super::super::{Range, RangeFrom, RangeTo, RangeInclusive, RangeToInclusive, RangeFull, RangeBounds}; }
    pub mod marker { pub use core::marker::PhantomData; }
    pub mod fmt {
        use vstd::prelude::*;
        pub use super::super::{Debug, Formatter};
        pub struct Error;
        pub type Result = core::result::Result<(), Error>;
    }
    pub mod mem {
        use vstd::prelude::*;
        use super::super::*;
        /// std::mem::swap of the contents of two elements
        #[verifier::external_body]
        pub fn w_swap(a: Slot, b: Slot, Tracked(w): Tracked<&mut World>)
            requires
                old(w)@.held.contains(a.eid()), old(w)@.held.contains(b.eid()), a.eid() != b.eid(),
            ensures
                swap_post(old(w)@, final(w)@, a.eid(), b.eid()),
        { }
        /// std::mem::replace of the content of an element
        #[verifier::external_body]
        pub fn w_replace<T>(x: Slot, value: T, Tracked(w): Tracked<&mut World>) -> (r: T)
            requires may_write(old(w)@, x.eid()),
            ensures saw(x.eid(), r), effect(old(w)@, final(w)@, x.eid(), Ev::Rep(x.eid(), enc(value), enc(r))),
        { loop { } }
    }
}
pub mod xalloc { pub mod vec { pub use super::super::Vec; } }
use xcore::sync::atomic::Ordering as Ord_;

pub open spec fn acq(o: Ord_) -> bool { o is Acquire || o is AcqRel || o is SeqCst }
pub open spec fn rel(o: Ord_) -> bool { o is Release || o is AcqRel || o is SeqCst }

pub ghost enum Ctr { Res(int), Wri(int), Fresh(int) }

pub open spec fn fetch_add_post(o: WS, f: WS, v: int, n: int, r: int) -> bool {
    &&& kn(o, f) && f.excl == o.excl
    &&& r + n <= (f.lbr)(v)
    &&& xsame_but(o, f, v)
    &&& f.log == o.log && f.held == o.held
    &&& forall|e: Eid| #[trigger] f.owned.contains(e) <==> (o.owned.contains(e) || (e.v == v && r <= e.k < r + n))
    &&& forall|e: Eid| #[trigger] f.duty.contains(e) <==> (o.duty.contains(e) || (e.v == v && r <= e.k < r + n))
    &&& forall|k: int| r <= k < r + n ==> !o.owned.contains(#[trigger] eid(v, k)) && !o.known.contains(eid(v, k))
    &&& (o.excl.contains(v) ==> r == (o.xres)(v) && (f.xres)(v) == (o.xres)(v) + n
          && forall|e: Eid| e.v == v ==> #[trigger] (f.xval)(e) == (o.xval)(e))
}
pub open spec fn load_res_post(o: WS, f: WS, v: int, r: int) -> bool {
    quiet(o, f) && (o.lbr)(v) <= r <= (f.lbr)(v) && (o.excl.contains(v) ==> r == (o.xres)(v))
}
pub open spec fn load_wri_post(o: WS, f: WS, v: int, r: int, acquires: bool) -> bool {
    &&& quiet(o, f)
    &&& (o.excl.contains(v) ==> r == (o.xwri)(v))
    // while values are taken out under exclusive access, the counter is not truthful
    &&& acquires && (o.excl.contains(v) ==> all_known(o, v, 0, (o.xwri)(v)))
          ==> all_known(f, v, 0, r) && r <= (f.lbr)(v) && r <= (f.lbc)(v)
}
pub open spec fn resume_post(g: WS, r: WS) -> bool {
    kn(g, r) && r.held == g.held && r.duty == g.duty && r.owned == ISet::<Eid>::empty() && (wri_ok(g) ==> wri_ok(r))
}
/// a counter is stored only under exclusive access; never below a value or a reserved position
pub open spec fn store_res_pre(o: WS, v: int, n: int) -> bool {
    o.excl.contains(v) && (forall|e: Eid| e.v == v && e.k >= n ==> #[trigger] (o.xval)(e) is None) && n <= (o.xres)(v) && none_owned(o, v)
}
pub open spec fn store_same(o: WS, f: WS) -> bool {
    &&& o.excl == f.excl && o.owned == f.owned && o.duty == f.duty && o.log == f.log && o.held == f.held && o.known == f.known
    &&& o.mcap == f.mcap && f.lbc == o.lbc && f.xval == o.xval
}
pub open spec fn store_res_post(o: WS, f: WS, v: int, n: int) -> bool {
    &&& store_same(o, f) && (f.xres)(v) == n && f.xwri == o.xwri
    &&& forall|u: int| u != v ==> #[trigger] (f.xres)(u) == (o.xres)(u)
    &&& forall|u: int| u != v ==> #[trigger] (f.lbr)(u) == (o.lbr)(u)
}
pub open spec fn store_wri_post(o: WS, f: WS, v: int, n: int) -> bool {
    &&& store_same(o, f) && (f.xwri)(v) == n && f.xres == o.xres && f.lbr == o.lbr
    &&& forall|u: int| u != v ==> #[trigger] (f.xwri)(u) == (o.xwri)(u)
}

#[verifier::external_body]
pub struct AtomicUsize { x: core::sync::atomic::AtomicUsize }
impl AtomicUsize {
    /// which counter of which vec this is
    pub uninterp spec fn ctr(&self) -> Ctr;
    /// initial value, for a counter that is not yet part of a vec
    pub uninterp spec fn init_val(&self) -> int;

    /// Reservation: the only read-modify-write by which positions are handed out.
    #[verifier::external_body]
    pub fn w_fetch_add(&self, n: usize, order: Ord_, Tracked(w): Tracked<&mut World>) -> (r: usize)
        requires
            self.ctr() is Res,
            // no wrap around: only bounded numbers of positions may be added
            n <= (old(w)@.mcap)(self.ctr()->Res_0) || n <= 1,
        ensures
            fetch_add_post(old(w)@, final(w)@, self.ctr()->Res_0, n as int, r as int),
    { 0 }
    #[verifier::external_body]
    pub fn w_load(&self, order: Ord_, Tracked(w): Tracked<&mut World>) -> (r: usize)
        ensures
            self.ctr() is Fresh ==> quiet(old(w)@, final(w)@),
            self.ctr() matches Ctr::Res(v) ==> load_res_post(old(w)@, final(w)@, v, r as int),
            self.ctr() matches Ctr::Wri(v) ==> load_wri_post(old(w)@, final(w)@, v, r as int, acq(order)),
    { 0 }
    #[verifier::external_body]
    pub fn w_fetch_max(&self, n: usize, order: Ord_, Tracked(w): Tracked<&mut World>) -> (r: usize)
        requires
            // only the number of written positions is a maximum, and what is published must be
            // initialised, visible to the publisher, and published with release semantics
            self.ctr() is Wri, rel(order), all_known(old(w)@, self.ctr()->Wri_0, 0, n as int),
        ensures
            ({ let v = self.ctr()->Wri_0; let o = old(w)@; let f = final(w)@;
               &&& quiet(o, f)
            }),
    { 0 }
    /// plain store: only under exclusive access, and never below an initialised position
    #[verifier::external_body]
    pub fn w_store(&self, n: usize, order: Ord_, Tracked(w): Tracked<&mut World>)
        requires
            self.ctr() is Res || self.ctr() is Wri,
            self.ctr() matches Ctr::Res(v) ==> store_res_pre(old(w)@, v, n as int),
            self.ctr() matches Ctr::Wri(v) ==> old(w)@.excl.contains(v) && (n == 0 || all_known(old(w)@, v, 0, n as int)),
        ensures
            self.ctr() matches Ctr::Res(v) ==> store_res_post(old(w)@, final(w)@, v, n as int),
            self.ctr() matches Ctr::Wri(v) ==> store_wri_post(old(w)@, final(w)@, v, n as int),
    { }
}
/// `usize::into::<AtomicUsize>()`
pub trait Into<T>: Sized { spec fn into_rel(self, r: T) -> bool;
    fn w_into(self, Tracked(w): Tracked<&mut World>) -> (r: T) ensures self.into_rel(r), quiet(old(w)@, final(w)@); }
impl Into<AtomicUsize> for usize {
    open spec fn into_rel(self, r: AtomicUsize) -> bool { r.init_val() == self && r.ctr() is Fresh }
    #[verifier::external_body]
    fn w_into(self, Tracked(w): Tracked<&mut World>) -> (r: AtomicUsize) { unimplemented!() }
}

// ---------------------------------------------------------------- user traits
pub trait PartialEq<Rhs: ?Sized = Self> {
    spec fn eq_req(&self, o: &Rhs, w: WS) -> bool;
    spec fn eq_rel(&self, o: &Rhs, r: bool) -> bool;
    fn w_eq(&self, o: &Rhs, Tracked(w): Tracked<&mut World>) -> (r: bool)
        requires self.eq_req(o, old(w)@),
        ensures quiet(old(w)@, final(w)@), self.eq_rel(o, r);
}
/// `T::eq` of the user may be called with any two values
pub open spec fn eq_total<T: PartialEq>() -> bool { forall|a: T, b: T, w: WS| user_ok(w) ==> #[trigger] a.eq_req(&b, w) }
macro_rules! prim_eq { ($($t:ty),*) => { $( verus! {
impl PartialEq for $t {
    open spec fn eq_req(&self, o: &$t, w: WS) -> bool { true }
    open spec fn eq_rel(&self, o: &$t, r: bool) -> bool { r == (*self == *o) }
    fn w_eq(&self, o: &$t, Tracked(w): Tracked<&mut World>) -> (r: bool) { *self == *o }
} } )* } }
prim_eq!(usize, bool, u8);
impl<'a, A: PartialEq<B>, B> PartialEq<&'a B> for &'a A {
    open spec fn eq_req(&self, o: &&'a B, w: WS) -> bool { (**self).eq_req(*o, w) }
    open spec fn eq_rel(&self, o: &&'a B, r: bool) -> bool { (**self).eq_rel(*o, r) }
    fn w_eq(&self, o: &&'a B, Tracked(w): Tracked<&mut World>) -> (r: bool) { (**self).w_eq(*o, Tracked(w)) }
}
impl<A: PartialEq> PartialEq for Option<A> {
    open spec fn eq_req(&self, o: &Option<A>, w: WS) -> bool { *self is Some && *o is Some ==> self->0.eq_req(&o->0, w) }
    open spec fn eq_rel(&self, o: &Option<A>, r: bool) -> bool {
        if *self is Some && *o is Some { self->0.eq_rel(&o->0, r) } else { r == (*self is None && *o is None) } }
    fn w_eq(&self, o: &Option<A>, Tracked(w): Tracked<&mut World>) -> (r: bool) {
        match (self, o) { (Some(a), Some(b)) => a.w_eq(b, Tracked(w)), (None, None) => true, _ => false } }
}
/// `core::mem::drop`
pub fn w_drop<T>(x: T, Tracked(w): Tracked<&mut World>) ensures quiet(old(w)@, final(w)@) { }
pub trait Clone: Sized {
    spec fn clone_rel(&self, r: Self) -> bool;
    fn w_clone(&self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        requires user_ok(old(w)@),
        ensures quiet(old(w)@, final(w)@), self.clone_rel(r);
}
pub trait Copy: Clone {}
pub trait Debug: Sized {
    fn w_fmt(&self, f: &mut Formatter<'_>, Tracked(w): Tracked<&mut World>) -> (r: xcore::fmt::Result)
        requires user_ok(old(w)@),
        ensures quiet(old(w)@, final(w)@), r is Ok ==> final(f).out() == old(f).out().push(Tok::Dbg(enc(*self)));
}
/// the total order of machine integers
pub trait Num: Sized {
    spec fn ival(&self) -> int;
    spec fn of(i: int) -> Self;
    spec fn lim() -> int;
    fn w_cmp(&self, o: &Self, Tracked(w): Tracked<&mut World>) -> (r: xcore::cmp::Ordering)
        ensures quiet(old(w)@, final(w)@),
            r is Less <==> self.ival() < o.ival(), r is Equal <==> self.ival() == o.ival(), r is Greater <==> self.ival() > o.ival();
    fn w_min(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), r.ival() == (if self.ival() <= o.ival() { self.ival() } else { o.ival() }), r == self || r == o;
    fn w_max(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), r.ival() == (if self.ival() >= o.ival() { self.ival() } else { o.ival() }), r == self || r == o;
    fn w_saturating_sub(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), r.ival() == (if self.ival() >= o.ival() { self.ival() - o.ival() } else { 0 });
    fn w_saturating_add(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), r.ival() == (if self.ival() + o.ival() <= Self::lim() { self.ival() + o.ival() } else { Self::lim() });
    fn w_wrapping_add(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), self.ival() + o.ival() <= Self::lim() ==> r.ival() == self.ival() + o.ival();
    fn w_wrapping_sub(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), self.ival() >= o.ival() ==> r.ival() == self.ival() - o.ival();
    fn w_checked_sub(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Option<Self>)
        ensures quiet(old(w)@, final(w)@), r is Some <==> self.ival() >= o.ival(), r is Some ==> r->0.ival() == self.ival() - o.ival();
    fn w_checked_add(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Option<Self>)
        ensures quiet(old(w)@, final(w)@), r is Some <==> self.ival() + o.ival() <= Self::lim(), r is Some ==> r->0.ival() == self.ival() + o.ival();
    fn w_div_ceil(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self)
        requires o.ival() > 0,
        ensures quiet(old(w)@, final(w)@), r.ival() == (self.ival() + o.ival() - 1) / o.ival();
}
impl Num for usize {
    open spec fn ival(&self) -> int { *self as int }
    open spec fn of(i: int) -> usize { i as usize }
    open spec fn lim() -> int { usize::MAX as int }
    #[verifier::external_body] fn w_cmp(&self, o: &Self, Tracked(w): Tracked<&mut World>) -> (r: xcore::cmp::Ordering) { unimplemented!() }
    #[verifier::external_body] fn w_min(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self) { 0 }
    #[verifier::external_body] fn w_max(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self) { 0 }
    #[verifier::external_body] fn w_saturating_sub(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self) { 0 }
    #[verifier::external_body] fn w_saturating_add(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self) { 0 }
    #[verifier::external_body] fn w_wrapping_add(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self) { 0 }
    #[verifier::external_body] fn w_wrapping_sub(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self) { 0 }
    #[verifier::external_body] fn w_checked_sub(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Option<Self>) { None }
    #[verifier::external_body] fn w_checked_add(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Option<Self>) { None }
    #[verifier::external_body] fn w_div_ceil(self, o: Self, Tracked(w): Tracked<&mut World>) -> (r: Self) { 0 }
}

// ---------------------------------------------------------------- std::fmt
pub ghost enum Tok { Lit(Seq<char>), Dbg(Val) }
#[verifier::external_body]
pub struct Formatter<'a> { x: &'a u8 }
impl<'a> Formatter<'a> {
    pub uninterp spec fn out(&self) -> Seq<Tok>;
    #[verifier::external_body]
    pub fn w_lit(&mut self, s: &'static str, Tracked(w): Tracked<&mut World>) -> (r: xcore::fmt::Result)
        ensures quiet(old(w)@, final(w)@), r is Ok ==> final(self).out() == old(self).out().push(Tok::Lit(s@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn w_write_str(&mut self, s: &'static str, Tracked(w): Tracked<&mut World>) -> (r: xcore::fmt::Result)
        ensures quiet(old(w)@, final(w)@), r is Ok ==> final(self).out() == old(self).out().push(Tok::Lit(s@)),
    { unimplemented!() }
    /// the user's `Debug` implementation writes its argument
    #[verifier::external_body]
    pub fn w_dbg<X: Debug>(&mut self, x: &X, Tracked(w): Tracked<&mut World>) -> (r: xcore::fmt::Result)
        requires user_ok(old(w)@),
        ensures quiet(old(w)@, final(w)@), r is Ok ==> final(self).out() == old(self).out().push(Tok::Dbg(enc(*x))),
    { unimplemented!() }
}

// ---------------------------------------------------------------- ranges
pub struct Range<A> { pub start: A, pub end: A }
pub struct RangeFrom<A> { pub start: A }
pub struct RangeTo<A> { pub end: A }
pub struct RangeInclusive<A> { pub start: A, pub end: A }
pub struct RangeToInclusive<A> { pub end: A }
pub struct RangeFull;
pub enum Bound<A> { Included(A), Excluded(A), Unbounded }
pub trait RangeBounds<A>: Sized {
    spec fn lo(&self) -> Bound<A>;
    spec fn hi(&self) -> Bound<A>;
    #[verifier::external_body]
    fn w_start_bound(&self, Tracked(w): Tracked<&mut World>) -> (r: Bound<A>)
        ensures quiet(old(w)@, final(w)@), r == self.lo(),
    { unimplemented!() }
    #[verifier::external_body]
    fn w_end_bound(&self, Tracked(w): Tracked<&mut World>) -> (r: Bound<A>)
        ensures quiet(old(w)@, final(w)@), r == self.hi(),
    { unimplemented!() }
}
impl<A> RangeBounds<A> for Range<A> { open spec fn lo(&self) -> Bound<A> { Bound::Included(self.start) } open spec fn hi(&self) -> Bound<A> { Bound::Excluded(self.end) } }
impl<A> RangeBounds<A> for RangeFrom<A> { open spec fn lo(&self) -> Bound<A> { Bound::Included(self.start) } open spec fn hi(&self) -> Bound<A> { Bound::Unbounded } }
impl<A> RangeBounds<A> for RangeTo<A> { open spec fn lo(&self) -> Bound<A> { Bound::Unbounded } open spec fn hi(&self) -> Bound<A> { Bound::Excluded(self.end) } }
impl<A> RangeBounds<A> for RangeInclusive<A> { open spec fn lo(&self) -> Bound<A> { Bound::Included(self.start) } open spec fn hi(&self) -> Bound<A> { Bound::Included(self.end) } }
impl<A> RangeBounds<A> for RangeToInclusive<A> { open spec fn lo(&self) -> Bound<A> { Bound::Unbounded } open spec fn hi(&self) -> Bound<A> { Bound::Included(self.end) } }
impl<A> RangeBounds<A> for RangeFull { open spec fn lo(&self) -> Bound<A> { Bound::Unbounded } open spec fn hi(&self) -> Bound<A> { Bound::Unbounded } }

pub open spec fn lo_of(b: Bound<usize>) -> int { match b { Bound::Included(a) => a as int, Bound::Excluded(a) => a + 1, Bound::Unbounded => 0 } }
pub open spec fn hi_of(b: Bound<usize>, len: int) -> int { match b { Bound::Included(a) => a + 1, Bound::Excluded(a) => a as int, Bound::Unbounded => len } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
/// first and one-past-last position of the range clipped to `len`
pub open spec fn clip_lo<R: RangeBounds<usize>>(r: R, len: int) -> int { imin(lo_of(r.lo()), len) }
pub open spec fn clip_hi<R: RangeBounds<usize>>(r: R, len: int) -> int { imin(imax(hi_of(r.hi(), len), lo_of(r.lo())), len) }
/// bounds of the range do not exceed the machine integers (`..=usize::MAX` overflows in the dependency)
pub open spec fn range_fits<R: RangeBounds<usize>>(r: R) -> bool { lo_of(r.lo()) <= usize::MAX && hi_of(r.hi(), 0) <= usize::MAX }
// ---------------------------------------------------------------- iterators
pub trait Iterator: Sized {
    type Item;
    /// the items this iterator has yet to yield
    spec fn seq(&self) -> Seq<Self::Item>;
    fn w_next(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<Self::Item>)
        requires user_ok(old(w)@),
        ensures quiet(old(w)@, final(w)@),
            old(self).seq().len() == 0 ==> r is None && final(self).seq() == old(self).seq(),
            old(self).seq().len() > 0 ==> r == Some(old(self).seq()[0]) && final(self).seq() == old(self).seq().drop_first();
    fn w_size_hint(&self, Tracked(w): Tracked<&mut World>) -> (r: (usize, Option<usize>))
        requires user_ok(old(w)@),
        ensures quiet(old(w)@, final(w)@), r.0 <= self.seq().len(), r.1 matches Some(b) ==> self.seq().len() <= b;
}
pub trait ExactSizeIterator: Iterator {
    fn w_len(&self, Tracked(w): Tracked<&mut World>) -> (r: usize)
        requires user_ok(old(w)@),
        ensures quiet(old(w)@, final(w)@), r == self.seq().len();
}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn items(self) -> Seq<Self::Item>;
    fn w_into_iter(self, Tracked(w): Tracked<&mut World>) -> (r: Self::IntoIter)
        requires user_ok(old(w)@),
        ensures quiet(old(w)@, final(w)@), r.seq() == self.items();
}
impl<I: Iterator> IntoIterator for I {
    type Item = I::Item;
    type IntoIter = I;
    open spec fn items(self) -> Seq<I::Item> { self.seq() }
    fn w_into_iter(self, Tracked(w): Tracked<&mut World>) -> (r: I) { self }
}
pub trait FromIterator<A>: Sized {
    spec fn from_req(s: Seq<A>, w: WS) -> bool;
    spec fn from_rel(s: Seq<A>, a: WS, b: WS, r: Self) -> bool;
    fn w_from_iter<I: IntoIterator<Item = A>>(iter: I, Tracked(w): Tracked<&mut World>) -> (r: Self)
        requires user_ok(old(w)@), Self::from_req(iter.items(), old(w)@),
        ensures Self::from_rel(iter.items(), old(w)@, final(w)@, r);
}

/// every iterator created by the library or by the dependencies
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct It<A> { x: PhantomData<A> }
pub uninterp spec fn it_seq<A>(i: It<A>) -> Seq<A>;
impl<A> Iterator for It<A> {
    type Item = A;
    open spec fn seq(&self) -> Seq<A> { it_seq(*self) }
    #[verifier::external_body]
    fn w_next(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<A>) { None }
    #[verifier::external_body]
    fn w_size_hint(&self, Tracked(w): Tracked<&mut World>) -> (r: (usize, Option<usize>)) { (0, None) }
}
impl<A> ExactSizeIterator for It<A> {
    #[verifier::external_body]
    fn w_len(&self, Tracked(w): Tracked<&mut World>) -> (r: usize) { 0 }
}
pub open spec fn flags_of<A, F: Fn(&A) -> bool>(s: Seq<A>, f: F, b: Seq<bool>) -> bool {
    b.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> f.ensures((&s[k],), #[trigger] b[k])
}
pub open spec fn select<A>(s: Seq<A>, b: Seq<bool>) -> Seq<A> decreases s.len() {
    if s.len() == 0 || b.len() == 0 { Seq::empty() }
    else if b[0] { seq![s[0]] + select(s.drop_first(), b.drop_first()) }
    else { select(s.drop_first(), b.drop_first()) }
}
pub open spec fn fold_ok<A, U, F: Fn(U, A) -> U>(s: Seq<A>, f: F, acc: Seq<U>) -> bool {
    acc.len() == s.len() + 1 && forall|k: int| 0 <= k < s.len() && #[trigger] at(k) ==> f.ensures((acc[k], s[k]), acc[k + 1])
}
pub open spec fn opts<A>(s: Seq<Option<A>>) -> Seq<A> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        match s[0] { Some(a) => seq![a] + opts(s.drop_first()), None => opts(s.drop_first()) } }
}
/// what every iterator offers
pub trait IterX: Iterator {
    fn w_map<F: Fn(Self::Item) -> U, U>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: It<U>)
        requires forall|k: int| 0 <= k < self.seq().len() ==> #[trigger] f.requires((self.seq()[k],)),
        ensures quiet(old(w)@, final(w)@), r.seq().len() == self.seq().len(),
            forall|k: int| 0 <= k < self.seq().len() ==> f.ensures((self.seq()[k],), #[trigger] r.seq()[k]);
    fn w_filter<F: Fn(&Self::Item) -> bool>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: It<Self::Item>)
        requires forall|k: int| 0 <= k < self.seq().len() ==> #[trigger] f.requires((&self.seq()[k],)),
        ensures quiet(old(w)@, final(w)@),
            exists|b: Seq<bool>| #[trigger] flags_of(self.seq(), f, b) && r.seq() == select(self.seq(), b);
    fn w_fold<F: Fn(U, Self::Item) -> U, U>(self, init: U, f: F, Tracked(w): Tracked<&mut World>) -> (r: U)
        requires user_ok(old(w)@), forall|u: U, k: int| 0 <= k < self.seq().len() ==> #[trigger] f.requires((u, self.seq()[k])),
        ensures quiet(old(w)@, final(w)@),
            exists|acc: Seq<U>| #[trigger] fold_ok(self.seq(), f, acc) && acc[0] == init && r == acc.last();
    fn w_position<F: Fn(Self::Item) -> bool>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: Option<usize>)
        requires user_ok(old(w)@), forall|k: int| 0 <= k < self.seq().len() ==> #[trigger] f.requires((self.seq()[k],)),
        ensures quiet(old(w)@, final(w)@),
            r matches Some(i) ==> i < self.seq().len() && f.ensures((self.seq()[i as int],), true)
                && (forall|k: int| 0 <= k < i ==> f.ensures((#[trigger] self.seq()[k],), false)),
            r is None ==> forall|k: int| 0 <= k < self.seq().len() ==> f.ensures((#[trigger] self.seq()[k],), false);
    fn w_any<F: Fn(Self::Item) -> bool>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: bool)
        requires user_ok(old(w)@), forall|k: int| 0 <= k < self.seq().len() ==> #[trigger] f.requires((self.seq()[k],)),
        ensures quiet(old(w)@, final(w)@),
            r ==> exists|k: int| 0 <= k < self.seq().len() && at(k) && f.ensures((#[trigger] self.seq()[k],), true),
            !r ==> forall|k: int| 0 <= k < self.seq().len() ==> f.ensures((#[trigger] self.seq()[k],), false);
    fn w_enumerate(self, Tracked(w): Tracked<&mut World>) -> (r: It<(usize, Self::Item)>)
        ensures quiet(old(w)@, final(w)@), r.seq().len() == self.seq().len(), self.seq().len() <= usize::MAX,
            forall|k: int| 0 <= k < self.seq().len() ==> #[trigger] r.seq()[k] == (k as usize, self.seq()[k]);
    fn w_zip<J: IntoIterator>(self, o: J, Tracked(w): Tracked<&mut World>) -> (r: It<(Self::Item, J::Item)>)
        ensures quiet(old(w)@, final(w)@), r.seq().len() == imin(self.seq().len() as int, o.items().len() as int),
            forall|k: int| 0 <= k < r.seq().len() ==> #[trigger] r.seq()[k] == (self.seq()[k], o.items()[k]);
    fn w_take(self, n: usize, Tracked(w): Tracked<&mut World>) -> (r: It<Self::Item>)
        ensures quiet(old(w)@, final(w)@), r.seq() == self.seq().take(imin(n as int, self.seq().len() as int));
    fn w_skip(self, n: usize, Tracked(w): Tracked<&mut World>) -> (r: It<Self::Item>)
        ensures quiet(old(w)@, final(w)@), r.seq() == self.seq().skip(imin(n as int, self.seq().len() as int));
    fn w_count(self, Tracked(w): Tracked<&mut World>) -> (r: usize)
        requires user_ok(old(w)@),
        ensures quiet(old(w)@, final(w)@), r == self.seq().len();
    fn w_flat_map<F: Fn(Self::Item) -> Option<U>, U>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: It<U>)
        requires forall|k: int| 0 <= k < self.seq().len() ==> #[trigger] f.requires((self.seq()[k],)),
        ensures quiet(old(w)@, final(w)@),
            exists|s: Seq<Option<U>>| #[trigger] map_ok(self.seq(), f, s) && r.seq() == opts(s);
    fn w_filter_map<F: Fn(Self::Item) -> Option<U>, U>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: It<U>)
        requires forall|k: int| 0 <= k < self.seq().len() ==> #[trigger] f.requires((self.seq()[k],)),
        ensures quiet(old(w)@, final(w)@),
            exists|s: Seq<Option<U>>| #[trigger] map_ok(self.seq(), f, s) && r.seq() == opts(s);
    fn w_collect<C: FromIterator<Self::Item>>(self, Tracked(w): Tracked<&mut World>) -> (r: C)
        requires user_ok(old(w)@), C::from_req(self.seq(), old(w)@),
        ensures C::from_rel(self.seq(), old(w)@, final(w)@, r);
}
impl<A, I: Iterator<Item = A>> IterX for I {
    #[verifier::external_body]
    fn w_map<F: Fn(A) -> U, U>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: It<U>) { loop { } }
    #[verifier::external_body]
    fn w_filter<F: Fn(&A) -> bool>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: It<A>) { loop { } }
    #[verifier::external_body]
    fn w_fold<F: Fn(U, A) -> U, U>(self, init: U, f: F, Tracked(w): Tracked<&mut World>) -> (r: U) { loop { } }
    #[verifier::external_body]
    fn w_position<F: Fn(A) -> bool>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: Option<usize>) { None }
    #[verifier::external_body]
    fn w_any<F: Fn(A) -> bool>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: bool) { true }
    #[verifier::external_body]
    fn w_enumerate(self, Tracked(w): Tracked<&mut World>) -> (r: It<(usize, A)>) { loop { } }
    #[verifier::external_body]
    fn w_zip<J: IntoIterator>(self, o: J, Tracked(w): Tracked<&mut World>) -> (r: It<(A, J::Item)>) { loop { } }
    #[verifier::external_body]
    fn w_take(self, n: usize, Tracked(w): Tracked<&mut World>) -> (r: It<A>) { loop { } }
    #[verifier::external_body]
    fn w_skip(self, n: usize, Tracked(w): Tracked<&mut World>) -> (r: It<A>) { loop { } }
    #[verifier::external_body]
    fn w_count(self, Tracked(w): Tracked<&mut World>) -> (r: usize) { loop { } }
    #[verifier::external_body]
    fn w_flat_map<F: Fn(A) -> Option<U>, U>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: It<U>) { loop { } }
    fn w_filter_map<F: Fn(A) -> Option<U>, U>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: It<U>) { self.w_flat_map(f, Tracked(w)) }
    #[verifier::external_body]
    fn w_collect<C: FromIterator<A>>(self, Tracked(w): Tracked<&mut World>) -> (r: C) { loop { } }
}
pub open spec fn map_ok<A, U, F: Fn(A) -> U>(s: Seq<A>, f: F, t: Seq<U>) -> bool {
    t.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> f.ensures((s[k],), #[trigger] t[k])
}
impl Range<usize> {
    #[verifier::external_body]
    pub fn it(self) -> (r: It<usize>)
        ensures r.seq().len() == (if self.end >= self.start { self.end - self.start } else { 0 }),
            forall|k: int| 0 <= k < r.seq().len() ==> #[trigger] r.seq()[k] == self.start + k,
    { loop { } }
    pub fn w_map<F: Fn(usize) -> U, U>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: It<U>)
        requires forall|k: usize| self.start <= k < self.end ==> #[trigger] f.requires((k,)),
        ensures quiet(old(w)@, final(w)@), r.seq().len() == (if self.end >= self.start { self.end - self.start } else { 0 }),
            forall|k: int| 0 <= k < r.seq().len() ==> f.ensures(((self.start + k) as usize,), #[trigger] r.seq()[k]),
    { self.it().w_map(f, Tracked(w)) }
    pub fn w_into_iter(self, Tracked(w): Tracked<&mut World>) -> (r: It<usize>)
        ensures quiet(old(w)@, final(w)@), r.seq().len() == (if self.end >= self.start { self.end - self.start } else { 0 }),
            forall|k: int| 0 <= k < r.seq().len() ==> #[trigger] r.seq()[k] == self.start + k,
    { self.it() }
}
pub trait SliceX<E> {
    spec fn view_s(&self) -> Seq<E>;
    fn w_iter<'a>(&'a self, Tracked(w): Tracked<&mut World>) -> (r: It<&'a E>)
        ensures quiet(old(w)@, final(w)@), r.seq().len() == self.view_s().len(),
            forall|k: int| 0 <= k < r.seq().len() ==> *(#[trigger] r.seq()[k]) == self.view_s()[k];
    fn w_len(&self, Tracked(w): Tracked<&mut World>) -> (r: usize)
        ensures quiet(old(w)@, final(w)@), r == self.view_s().len();
}
impl<E> SliceX<E> for [E] {
    open spec fn view_s(&self) -> Seq<E> { self@ }
    #[verifier::external_body]
    fn w_iter<'a>(&'a self, Tracked(w): Tracked<&mut World>) -> (r: It<&'a E>) { loop { } }
    #[verifier::external_body]
    fn w_len(&self, Tracked(w): Tracked<&mut World>) -> (r: usize) { loop { } }
}
impl<E, const N: usize> SliceX<E> for [E; N] {
    open spec fn view_s(&self) -> Seq<E> { self@ }
    #[verifier::external_body]
    fn w_iter<'a>(&'a self, Tracked(w): Tracked<&mut World>) -> (r: It<&'a E>) { loop { } }
    #[verifier::external_body]
    fn w_len(&self, Tracked(w): Tracked<&mut World>) -> (r: usize) { loop { } }
}
/// `for x in slice` for a borrowed slice
pub trait SliceIntoIter<'a, E> {
    spec fn view_r(self) -> Seq<E>;
    fn w_into_iter(self, Tracked(w): Tracked<&mut World>) -> (r: It<&'a E>)
        ensures quiet(old(w)@, final(w)@), r.seq().len() == self.view_r().len(),
            forall|k: int| 0 <= k < r.seq().len() ==> *(#[trigger] r.seq()[k]) == self.view_r()[k];
}
impl<'a, E> SliceIntoIter<'a, E> for &'a [E] {
    open spec fn view_r(self) -> Seq<E> { self@ }
    #[verifier::external_body]
    fn w_into_iter(self, Tracked(w): Tracked<&mut World>) -> (r: It<&'a E>) { loop { } }
}

// ---------------------------------------------------------------- std: Option, Vec, Index, pointers
pub trait OptX<A>: Sized {
    spec fn ov(self) -> Option<A>;
    fn w_map<F: FnOnce(A) -> U, U>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: Option<U>)
        requires self.ov() is Some ==> f.requires((self.ov()->0,)),
        ensures quiet(old(w)@, final(w)@), r is Some <==> self.ov() is Some,
            self.ov() is Some ==> f.ensures((self.ov()->0,), r->0);
    fn w_expect(self, msg: &'static str, Tracked(w): Tracked<&mut World>) -> (r: A)
        requires self.ov() is Some,
        ensures quiet(old(w)@, final(w)@), self.ov() == Some(r);
    fn w_expect_p(self, msg: &'static str, Ghost(may_panic): Ghost<bool>, Tracked(w): Tracked<&mut World>) -> (r: A)
        requires self.ov() is Some || may_panic,
        ensures quiet(old(w)@, final(w)@), self.ov() == Some(r);
    fn w_unwrap(self, Tracked(w): Tracked<&mut World>) -> (r: A)
        requires self.ov() is Some,
        ensures quiet(old(w)@, final(w)@), self.ov() == Some(r);
    fn w_is_some(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures quiet(old(w)@, final(w)@), r == (self.ov() is Some);
    fn w_is_none(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures quiet(old(w)@, final(w)@), r == (self.ov() is None);
    fn w_unwrap_or(self, d: A, Tracked(w): Tracked<&mut World>) -> (r: A)
        ensures quiet(old(w)@, final(w)@), r == (match self.ov() { Some(x) => x, None => d });
}
impl<A> OptX<A> for Option<A> {
    open spec fn ov(self) -> Option<A> { self }
    fn w_map<F: FnOnce(A) -> U, U>(self, f: F, Tracked(w): Tracked<&mut World>) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } }
    fn w_expect(self, msg: &'static str, Tracked(w): Tracked<&mut World>) -> (r: A) { match self { Some(x) => x, None => rt_panic(Ghost(false)) } }
    fn w_expect_p(self, msg: &'static str, Ghost(may_panic): Ghost<bool>, Tracked(w): Tracked<&mut World>) -> (r: A) { match self { Some(x) => x, None => rt_panic(Ghost(may_panic)) } }
    fn w_unwrap(self, Tracked(w): Tracked<&mut World>) -> (r: A) { match self { Some(x) => x, None => rt_panic(Ghost(false)) } }
    fn w_is_some(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) { match self { Some(_) => true, None => false } }
    fn w_is_none(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) { match self { Some(_) => false, None => true } }
    fn w_unwrap_or(self, d: A, Tracked(w): Tracked<&mut World>) -> (r: A) { match self { Some(x) => x, None => d } }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Vec<A> { x: PhantomData<A> }
impl<A> Vec<A> {
    pub uninterp spec fn view(&self) -> Seq<A>;
    #[verifier::external_body]
    pub fn w_new(Tracked(w): Tracked<&mut World>) -> (r: Vec<A>) ensures quiet(old(w)@, final(w)@), r@ == Seq::<A>::empty() { loop { } }
    #[verifier::external_body]
    pub fn w_with_capacity(n: usize, Tracked(w): Tracked<&mut World>) -> (r: Vec<A>) ensures quiet(old(w)@, final(w)@), r@ == Seq::<A>::empty() { loop { } }
    #[verifier::external_body]
    pub fn w_push(&mut self, a: A, Tracked(w): Tracked<&mut World>) ensures quiet(old(w)@, final(w)@), final(self)@ == old(self)@.push(a) { }
    #[verifier::external_body]
    pub fn w_extend<I: IntoIterator<Item = A>>(&mut self, i: I, Tracked(w): Tracked<&mut World>, Ghost(_mp): Ghost<bool>)
        requires user_ok(old(w)@), ensures quiet(old(w)@, final(w)@), final(self)@ == old(self)@ + i.items() { }
    #[verifier::external_body]
    pub fn w_len(&self, Tracked(w): Tracked<&mut World>) -> (r: usize) ensures quiet(old(w)@, final(w)@), r == self@.len() { 0 }
}
impl<A> FromIterator<A> for Vec<A> {
    open spec fn from_req(s: Seq<A>, w: WS) -> bool { true }
    open spec fn from_rel(s: Seq<A>, a: WS, b: WS, r: Self) -> bool { quiet(a, b) && r@ == s }
    #[verifier::external_body]
    fn w_from_iter<I: IntoIterator<Item = A>>(iter: I, Tracked(w): Tracked<&mut World>) -> (r: Self) { loop { } }
}

#[verifier::external_body]
pub fn w_deref_mut<'a, T>(p: *mut T, Tracked(w): Tracked<&mut World>) -> (r: &'a mut T)
    ensures quiet(old(w)@, final(w)@), ident(r) == ident(p),
{ unsafe { &mut *p } }
#[verifier::external_body]
pub fn w_deref<'a, T>(p: *const T, Tracked(w): Tracked<&mut World>) -> (r: &'a T)
    ensures quiet(old(w)@, final(w)@), ident(r) == ident(p),
{ unsafe { &*p } }

// ---------------------------------------------------------------- orx-concurrent-option
pub enum State { None, Reserved, Some }
impl PartialEq for State {
    open spec fn eq_req(&self, o: &State, w: WS) -> bool { true }
    open spec fn eq_rel(&self, o: &State, r: bool) -> bool { r == (*self == *o) }
    #[verifier::external_body]
    fn w_eq(&self, o: &State, Tracked(w): Tracked<&mut World>) -> (r: bool) { true }
}
pub type StateU8 = u8;
pub const NONE: StateU8 = 0;
pub const RESERVED: StateU8 = 1;
pub const SOME: StateU8 = 2;

/// exclusive mutable reference to the content of an element (`&mut T` obtained from a handle)
#[verifier::external_body]
pub struct Slot { x: () }
impl Slot {
    pub uninterp spec fn eid(&self) -> Eid;
    /// `mem::replace` of the content; what was replaced is dropped
    #[verifier::external_body]
    pub fn w_put<T>(self, value: T, Tracked(w): Tracked<&mut World>)
        requires may_write(old(w)@, self.eid()),
        ensures effect(old(w)@, final(w)@, self.eid(), Ev::Set(self.eid(), enc(value))),
    { }
    /// call of a user closure `FnMut(&mut T)` on the content
    #[verifier::external_body]
    pub fn w_apply<F>(self, f: F, Tracked(w): Tracked<&mut World>)
        requires user_ok(old(w)@), may_write(old(w)@, self.eid()),
        ensures effect(old(w)@, final(w)@, self.eid(), Ev::Upd(self.eid(), enc(f))),
    { }
}
/// the element is initialised, and this thread has exclusive access to it
pub open spec fn may_write(w: WS, e: Eid) -> bool { w.held.contains(e) && w.known.contains(e) }
/// ... or its initialisation happened before
pub open spec fn may_read(w: WS, e: Eid) -> bool { may_write(w, e) || w.seen.contains(e) }

/// core::mem::MaybeUninit, as far as the option uses it on values
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MaybeUninit<T> { x: PhantomData<T> }
impl<T> MaybeUninit<T> {
    #[verifier::external_body]
    pub fn w_uninit(Tracked(w): Tracked<&mut World>) -> (r: Self) ensures quiet(old(w)@, final(w)@) { loop { } }
    #[verifier::external_body]
    pub fn w_assume_init(self, Tracked(w): Tracked<&mut World>) -> (r: T) ensures quiet(old(w)@, final(w)@) { loop { } }
    #[verifier::external_body]
    pub fn w_assume_init_ref<'a>(x: MuPtr<T>, Tracked(w): Tracked<&mut World>) -> (r: &'a T)
        requires may_read(old(w)@, x.eid()),
        ensures final(w)@ == old(w)@, ident(r) == x.eid(), old(w)@.held.contains(x.eid()) ==> saw(x.eid(), *r),
    { loop { } }
    #[verifier::external_body]
    pub fn w_assume_init_mut(x: MuPtr<T>, Tracked(w): Tracked<&mut World>) -> (r: Slot)
        requires may_write(old(w)@, x.eid()), ensures final(w)@ == old(w)@, r.eid() == x.eid(),
    { loop { } }
}
/// the memory of an element's value: `&*` or `&mut *` of the pointer that `UnsafeCell::get` returns (the
/// rights to access it are demanded where it is read or written)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MuPtr<T> { x: PhantomData<T> }
impl<T> MuPtr<T> {
    pub uninterp spec fn eid(&self) -> Eid;
    #[verifier::external_body]
    pub fn w_assume_init_ref<'a>(self, Tracked(w): Tracked<&mut World>) -> (r: &'a T)
        requires may_read(old(w)@, self.eid()),
        ensures final(w)@ == old(w)@, ident(r) == self.eid(), old(w)@.held.contains(self.eid()) ==> saw(self.eid(), *r),
    { loop { } }
    #[verifier::external_body]
    pub fn w_assume_init_mut(self, Tracked(w): Tracked<&mut World>) -> (r: Slot)
        requires may_write(old(w)@, self.eid()), ensures final(w)@ == old(w)@, r.eid() == self.eid(),
    { loop { } }
    /// moves the value out of an element that was marked as taken
    #[verifier::external_body]
    pub fn w_assume_init_read(self, Tracked(w): Tracked<&mut World>) -> (r: T)
        requires old(w)@.log.len() > 0, old(w)@.log.last() == Ev::Take(self.eid()), old(w)@.excl.contains(self.eid().v),
        ensures final(w)@ == old(w)@, old(w)@.moved == Some(enc(r)),
    { loop { } }
    /// drops the value in place; the element itself goes away with it
    #[verifier::external_body]
    pub fn w_assume_init_drop(self, Tracked(w): Tracked<&mut World>)
        requires old(w)@.excl.contains(self.eid().v), (old(w)@.xval)(self.eid()) is Some, !old(w)@.held.contains(self.eid()),
        ensures take_post(old(w)@, final(w)@, self.eid(), (old(w)@.xval)(self.eid())),
    { }
    /// the first value of a reserved position; it is published by the store that follows
    #[verifier::external_body]
    pub fn w_write(self, value: T, Tracked(w): Tracked<&mut World>)
        requires may_init(old(w)@, self.eid()),
        ensures final(w)@ == (WS { log: old(w)@.log.push(Ev::Init(self.eid(), enc(value))), ..old(w)@ }), final(w)@.log.drop_last() == old(w)@.log,
    { }
    #[verifier::external_body]
    pub fn w_as_ptr(self, Tracked(w): Tracked<&mut World>) -> (r: *const T)
        ensures final(w)@ == old(w)@, ident(r) == self.eid(),
    { loop { } }
    #[verifier::external_body]
    pub fn w_as_mut_ptr(self, Tracked(w): Tracked<&mut World>) -> (r: *mut T)
        ensures final(w)@ == old(w)@, ident(r) == self.eid(),
    { loop { } }
}
/// the position is reserved by this thread, and its memory is secured
pub open spec fn may_init(w: WS, e: Eid) -> bool { w.owned.contains(e) && e.k < (w.lbc)(e.v) && !w.duty.contains(e) }
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct UnsafeCell<A> { x: PhantomData<A> }
impl<A> UnsafeCell<A> {
    pub uninterp spec fn eid(&self) -> Eid;
}
impl<T> UnsafeCell<MaybeUninit<T>> {
    #[verifier::external_body]
    pub fn w_get(&self, Tracked(w): Tracked<&mut World>) -> (r: MuPtr<T>)
        ensures final(w)@ == old(w)@, r.eid() == self.eid(),
    { loop { } }
}
/// the state of an element: NONE until it is initialised, RESERVED while it is held, SOME otherwise
#[verifier::external_body]
pub struct AtomicU8 { x: () }
impl AtomicU8 {
    pub uninterp spec fn eid(&self) -> Eid;
    /// content of a state owned by value
    pub uninterp spec fn val(&self) -> u8;
    #[verifier::external_body]
    pub fn w_load(&self, order: Ord_, Tracked(w): Tracked<&mut World>) -> (r: u8)
        ensures state_load_post(old(w)@, final(w)@, self.eid(), r, acq(order)),
    { 0 }
    #[verifier::external_body]
    pub fn w_store(&self, v: u8, order: Ord_, Tracked(w): Tracked<&mut World>)
        requires v == SOME || v == NONE,
            // publication of the value written before
            v == SOME ==> rel(order) && may_init(old(w)@, self.eid()) && old(w)@.log.len() > 0 && (old(w)@.log.last() matches Ev::Init(e, _) && e == self.eid()),
            v == NONE ==> old(w)@.excl.contains(self.eid().v) && !old(w)@.held.contains(self.eid()),
        ensures
            v == SOME ==> publish_post(old(w)@, final(w)@, self.eid()),
            v == NONE ==> unmark_post(old(w)@, final(w)@, self.eid()),
    { }
    #[verifier::external_body]
    pub fn w_compare_exchange(&self, cur: u8, new: u8, success: Ord_, failure: Ord_, Tracked(w): Tracked<&mut World>) -> (r: Result<u8, u8>)
        requires
            // acquisition: elements are acquired by address
            new == RESERVED ==> (cur == SOME || cur == NONE) && acq(success) && can_lock(old(w)@, self.eid()),
            // release of an element held by this thread, which is left initialised
            new != RESERVED ==> cur == RESERVED && new == SOME && rel(success) && old(w)@.held.len() > 0
                && old(w)@.held.last() == self.eid() && old(w)@.known.contains(self.eid()),
        ensures
            new == RESERVED && r is Ok ==> r->Ok_0 == cur && lock_post(old(w)@, final(w)@, self.eid()) && (cur == SOME ==> final(w)@.known.contains(self.eid())) && (cur == NONE ==> !old(w)@.known.contains(self.eid())),
            new == RESERVED && r is Err ==> quiet(old(w)@, final(w)@) && r->Err_0 != cur && is_state(r->Err_0) && (old(w)@.known.contains(self.eid()) ==> r->Err_0 != NONE),
            new != RESERVED ==> r is Ok && still(old(w)@, final(w)@) && final(w)@.held == old(w)@.held.drop_last(),
    { Ok(0) }
}
pub open spec fn is_state(r: u8) -> bool { r == NONE || r == RESERVED || r == SOME }
pub open spec fn state_load_post(o: WS, f: WS, e: Eid, r: u8, acquires: bool) -> bool {
    &&& quiet(o, f) && is_state(r)
    &&& (o.known.contains(e) ==> r != NONE)
    &&& (r != NONE && e.k < (o.lbr)(e.v) ==> f.known.contains(e))
    &&& (o.known.contains(e) && uncontended(e) ==> r == SOME)
    &&& (r == SOME && acquires ==> f.seen.contains(e))
    &&& (o.excl.contains(e.v) && !o.held.contains(e) ==> r != RESERVED && (r == SOME <==> (o.xval)(e) is Some)
          && f == (WS { known: f.known, seen: f.seen, ..o }) && f.known.remove(e) =~= o.known.remove(e))
}
pub open spec fn lock_post(o: WS, f: WS, e: Eid) -> bool { still(o, f) && f.held == o.held.push(e) && f.held.drop_last() == o.held && f.held.last() == e }
pub open spec fn publish_post(o: WS, f: WS, e: Eid) -> bool {
    o.log.len() > 0 && (o.log.last() matches Ev::Init(d, x) && d == e && init_post(WS { log: o.log.drop_last(), ..o }, f, e, x))
}
/// the element is marked as empty; its value is still to be moved out
pub open spec fn unmark_post(o: WS, f: WS, e: Eid) -> bool {
    &&& take_post(o, f, e, (o.xval)(e)) && f.moved == (o.xval)(e)
}
impl u8_into for u8 {
    open spec fn as_u8(&self) -> u8 { *self }
    #[verifier::external_body]
    fn w_into(self, Tracked(w): Tracked<&mut World>) -> (r: AtomicU8) { loop { } }
}
pub trait u8_into: Sized {
    spec fn as_u8(&self) -> u8;
    fn w_into(self, Tracked(w): Tracked<&mut World>) -> (r: AtomicU8) ensures quiet(old(w)@, final(w)@), r.val() == self.as_u8();
}

/// RAII: the handles of a function are dropped, and their elements released, when it returns
pub axiom fn release_handles(g: Seq<Eid>, tracked w: &mut World)
    ensures final(w)@ == (WS { held: g, ..old(w)@ });
/// fields as in orx-concurrent-option; its functions are extracted from its sources (contracts/opt.vc)
pub struct Handle<'a> { pub state: &'a AtomicU8, pub success_state: StateU8 }
#[verifier::accept_recursive_types(T)]
pub struct MutHandle<'a, T> { pub state: &'a AtomicU8, pub success_state: StateU8, pub value: &'a UnsafeCell<MaybeUninit<T>> }
impl<'a, T> MutHandle<'a, T> {
    pub open spec fn eid(&self) -> Eid { self.value.eid() }
}
#[verifier::accept_recursive_types(T)]
pub struct ConcurrentOption<T> { pub value: UnsafeCell<MaybeUninit<T>>, pub state: AtomicU8 }
impl<T> ConcurrentOption<T> {
    /// the position this option is stored at
    pub uninterp spec fn eid(&self) -> Eid;
    /// content of an option owned by value
    pub uninterp spec fn oval(&self) -> Option<T>;

    #[verifier::external_body]
    pub fn w_unwrap(self, Tracked(w): Tracked<&mut World>) -> (r: T)
        requires self.oval() is Some, ensures quiet(old(w)@, final(w)@), self.oval() == Some(r) { loop { } }
    #[verifier::external_body]
    pub fn w_expect(self, msg: &'static str, Tracked(w): Tracked<&mut World>) -> (r: T)
        requires self.oval() is Some, ensures quiet(old(w)@, final(w)@), self.oval() == Some(r) { loop { } }
    /// destructive accesses: never valid on an element that is part of the vec
    #[verifier::external_body]
    pub fn w_take(&self, Tracked(w): Tracked<&mut World>) -> (r: Option<T>)
        requires false,
    { None }
    #[verifier::external_body]
    pub fn w_insert(&self, value: T, Tracked(w): Tracked<&mut World>) -> (r: Slot)
        requires false,
    { loop { } }
}
/// the two fields of an option belong to the same element; the state tells whether there is a value
pub broadcast axiom fn ax_opt<T>(o: ConcurrentOption<T>)
    ensures #![trigger o.eid()] #![trigger o.value.eid()] o.state.eid() == o.eid(), o.value.eid() == o.eid();
pub broadcast axiom fn ax_oval<T>(o: ConcurrentOption<T>)
    ensures (#[trigger] o.oval()) is Some <==> o.state.val() == SOME;
/// no other access holds the element at the moment it is accessed
pub uninterp spec fn uncontended(e: Eid) -> bool;

// ---------------------------------------------------------------- orx-pinned-vec, orx-split-vec, orx-fixed-vec
pub trait PinnedVec<E>: Sized {
    spec fn pelems(&self) -> Seq<E>;
    spec fn pmax(&self) -> int;
    fn w_len(&self, Tracked(w): Tracked<&mut World>) -> (r: usize)
        ensures quiet(old(w)@, final(w)@), r == self.pelems().len();
}
pub trait ConcurrentPinnedVec<E>: Sized { }
pub trait IntoConcurrentPinnedVec<E>: PinnedVec<E> {
    type ConPinnedVec: ConcurrentPinnedVec<E>;
    type IntoIter: Iterator<Item = E>;
    fn w_into_iter(self, Tracked(w): Tracked<&mut World>) -> (r: Self::IntoIter)
        ensures quiet(old(w)@, final(w)@), r.seq() == self.pelems();
    /// the memory beyond the elements holds what the closure returns
    fn w_into_concurrent_filled_with<F: Fn() -> E>(self, fill_with: F, Tracked(w): Tracked<&mut World>) -> (r: ConPin<E, Self::ConPinnedVec>)
        requires fill_with.requires(()),
        ensures quiet(old(w)@, final(w)@), r.content() == self.pelems(), r.cmax() == self.pmax(),
            forall|e: E| #[trigger] r.beyond(e) ==> fill_with.ensures((), e);
    /// the memory beyond the elements would not be initialised
    fn w_into_concurrent(self, Tracked(w): Tracked<&mut World>) -> (r: ConPin<E, Self::ConPinnedVec>)
        requires self.pseudo(),
        ensures quiet(old(w)@, final(w)@);
    /// a cheap empty vec that stands in for one that is taken out
    spec fn pseudo(&self) -> bool;
    fn w_pseudo_default(Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), r.pseudo();
}
/// the concurrent pinned vec within the collection
#[verifier::external_body]
#[verifier::accept_recursive_types(E)]
#[verifier::accept_recursive_types(C)]
pub struct ConPin<E, C> { x: PhantomData<(E, C)> }
impl<E, C> ConPin<E, C> {
    pub uninterp spec fn vid(&self) -> int;
    /// what it was made of
    pub uninterp spec fn content(&self) -> Seq<E>;
    pub uninterp spec fn cmax(&self) -> int;
    pub uninterp spec fn beyond(&self, e: E) -> bool;
}
pub struct PinnedVecGrowthError;
pub trait ResX<A, E>: Sized {
    spec fn rv(self) -> Result<A, E>;
    fn w_expect(self, msg: &'static str, Tracked(w): Tracked<&mut World>) -> (r: A)
        requires self.rv() is Ok,
        ensures quiet(old(w)@, final(w)@), self.rv() == Ok::<A, E>(r);
}
impl<A, E> ResX<A, E> for Result<A, E> {
    open spec fn rv(self) -> Result<A, E> { self }
    fn w_expect(self, msg: &'static str, Tracked(w): Tracked<&mut World>) -> (r: A) { match self { Ok(x) => x, Err(_) => rt_panic(Ghost(false)) } }
}
pub enum VecDropState { TakenOut, ToBeDropped }
pub struct Doubling;
pub struct Linear;
#[verifier::external_body]
#[verifier::accept_recursive_types(E)]
#[verifier::accept_recursive_types(G)]
pub struct SplitVec<E, G = Doubling> { x: PhantomData<(E, G)> }
#[verifier::external_body]
#[verifier::accept_recursive_types(E)]
#[verifier::accept_recursive_types(G)]
pub struct ConSplitVec<E, G> { x: PhantomData<(E, G)> }
impl<E, G> ConcurrentPinnedVec<E> for ConSplitVec<E, G> { }
impl<E, G> SplitVec<E, G> { pub uninterp spec fn view(&self) -> Seq<E>; pub uninterp spec fn maxcap(&self) -> int; }
impl<E, G> PinnedVec<E> for SplitVec<E, G> {
    open spec fn pelems(&self) -> Seq<E> { self@ }
    open spec fn pmax(&self) -> int { self.maxcap() }
    #[verifier::external_body]
    fn w_len(&self, Tracked(w): Tracked<&mut World>) -> (r: usize) { 0 }
}
impl<E, G> IntoConcurrentPinnedVec<E> for SplitVec<E, G> {
    uninterp spec fn pseudo(&self) -> bool;
    #[verifier::external_body]
    fn w_pseudo_default(Tracked(w): Tracked<&mut World>) -> (r: Self) { loop { } }
    type ConPinnedVec = ConSplitVec<E, G>;
    type IntoIter = It<E>;
    #[verifier::external_body]
    fn w_into_iter(self, Tracked(w): Tracked<&mut World>) -> (r: It<E>) { loop { } }
    #[verifier::external_body]
    fn w_into_concurrent_filled_with<F: Fn() -> E>(self, fill_with: F, Tracked(w): Tracked<&mut World>) -> (r: ConPin<E, Self::ConPinnedVec>) { loop { } }
    #[verifier::external_body]
    fn w_into_concurrent(self, Tracked(w): Tracked<&mut World>) -> (r: ConPin<E, Self::ConPinnedVec>) { loop { } }
}
/// capacity of `n` fragments of doubling (4, 8, 16, ..) resp. constant size 2^e
pub uninterp spec fn doubling_cap(n: int) -> int;
pub uninterp spec fn linear_cap(e: int, n: int) -> int;
impl<E> SplitVec<E, Doubling> {
    #[verifier::external_body]
    pub fn w_with_doubling_growth_and_fragments_capacity(n: usize, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), r@ == Seq::<E>::empty(), r.maxcap() == doubling_cap(n as int) { loop { } }
}
impl<E> SplitVec<E, Linear> {
    #[verifier::external_body]
    pub fn w_with_linear_growth_and_fragments_capacity(e: usize, n: usize, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), r@ == Seq::<E>::empty(), r.maxcap() == linear_cap(e as int, n as int) { loop { } }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(E)]
pub struct FixedVec<E> { x: PhantomData<E> }
#[verifier::external_body]
#[verifier::accept_recursive_types(E)]
pub struct ConFixedVec<E> { x: PhantomData<E> }
impl<E> ConcurrentPinnedVec<E> for ConFixedVec<E> { }
impl<E> FixedVec<E> { pub uninterp spec fn view(&self) -> Seq<E>; pub uninterp spec fn maxcap(&self) -> int;
    #[verifier::external_body]
    pub fn w_new(n: usize, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), r@ == Seq::<E>::empty(), r.maxcap() == n { loop { } }
}
impl<E> PinnedVec<E> for FixedVec<E> {
    open spec fn pelems(&self) -> Seq<E> { self@ }
    open spec fn pmax(&self) -> int { self.maxcap() }
    #[verifier::external_body]
    fn w_len(&self, Tracked(w): Tracked<&mut World>) -> (r: usize) { 0 }
}
impl<E> IntoConcurrentPinnedVec<E> for FixedVec<E> {
    uninterp spec fn pseudo(&self) -> bool;
    #[verifier::external_body]
    fn w_pseudo_default(Tracked(w): Tracked<&mut World>) -> (r: Self) { loop { } }
    type ConPinnedVec = ConFixedVec<E>;
    type IntoIter = It<E>;
    #[verifier::external_body]
    fn w_into_iter(self, Tracked(w): Tracked<&mut World>) -> (r: It<E>) { loop { } }
    #[verifier::external_body]
    fn w_into_concurrent_filled_with<F: Fn() -> E>(self, fill_with: F, Tracked(w): Tracked<&mut World>) -> (r: ConPin<E, Self::ConPinnedVec>) { loop { } }
    #[verifier::external_body]
    fn w_into_concurrent(self, Tracked(w): Tracked<&mut World>) -> (r: ConPin<E, Self::ConPinnedVec>) { loop { } }
}

// ---------------------------------------------------------------- orx-pinned-concurrent-col
// The functions of `col.rs` are extracted from the sources of the dependency (contracts/dep.vc) and
// verified against the contracts of the concurrent pinned vec within, below.
pub enum WritePermit { JustWrite, GrowThenWrite, Spin }
pub trait ConcurrentState<E> { }
impl<T> ConcurrentState<ConcurrentElement<T>> for ConcurrentVecState { }

pub struct PinnedConcurrentCol<E, C, S> { pub phantom: PhantomData<E>, pub con_pinned_vec: ConPin<E, C>, pub state: S, pub vec_drop_state: VecDropState }
pub trait Default: Sized {
    fn w_default(Tracked(w): Tracked<&mut World>) -> (r: Self) ensures quiet(old(w)@, final(w)@);
}
impl<E> Default for PhantomData<E> { fn w_default(Tracked(w): Tracked<&mut World>) -> (r: Self) { PhantomData } }
impl<A> It<A> {
    #[verifier::external_body]
    pub fn w_default(Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures quiet(old(w)@, final(w)@), r.seq() == Seq::<A>::empty(),
    { loop { } }
}

pub open spec fn flat<E>(s: Seq<&[E]>) -> Seq<E> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { s[0]@ + flat(s.drop_first()) }
}
/// the closure returns elements without a value
pub open spec fn fills_empty<T, F: Fn() -> ConcurrentElement<T>>(f: F) -> bool {
    f.requires(()) && forall|e: ConcurrentElement<T>| #[trigger] f.ensures((), e) ==> e.0.oval() is None
}
impl<T, C> ConPin<ConcurrentElement<T>, C> {
    #[verifier::external_body]
    pub fn w_capacity(&self, Tracked(w): Tracked<&mut World>) -> (r: usize)
        ensures quiet(old(w)@, final(w)@), cap_seen(old(w)@, final(w)@, self.vid(), r as int),
    { 0 }
    #[verifier::external_body]
    pub fn w_max_capacity(&self, Tracked(w): Tracked<&mut World>) -> (r: usize)
        ensures quiet(old(w)@, final(w)@), r == (old(w)@.mcap)(self.vid()),
    { 0 }
    #[verifier::external_body]
    pub fn w_get(&self, i: usize, Tracked(w): Tracked<&mut World>) -> (r: Option<&ConcurrentElement<T>>)
        ensures quiet(old(w)@, final(w)@), i < (old(w)@.lbc)(self.vid()) ==> r is Some,
            r matches Some(e) ==> e.eid() == eid(self.vid(), i as int) && i < (final(w)@.lbc)(self.vid()),
    { None }
    #[verifier::external_body]
    pub fn w_iter(&self, len: usize, Tracked(w): Tracked<&mut World>) -> (r: It<&ConcurrentElement<T>>)
        requires len <= (old(w)@.lbc)(self.vid()),
        ensures quiet(old(w)@, final(w)@), r.seq().len() == len,
            forall|k: int| 0 <= k < len ==> (#[trigger] r.seq()[k]).eid() == eid(self.vid(), k),
    { loop { } }
    #[verifier::external_body]
    pub fn w_iter_over_range<R: RangeBounds<usize>>(&self, range: R, Tracked(w): Tracked<&mut World>) -> (r: It<&ConcurrentElement<T>>)
        requires range_fits(range), !(range.hi() is Unbounded), hi_of(range.hi(), 0) <= (old(w)@.lbc)(self.vid()),
            // an empty range may begin anywhere
            hi_of(range.hi(), 0) > lo_of(range.lo()) ==> lo_of(range.lo()) <= (old(w)@.lbc)(self.vid()),
        ensures quiet(old(w)@, final(w)@),
            r.seq().len() == imax(0, hi_of(range.hi(), 0) - lo_of(range.lo())),
            forall|k: int| 0 <= k < r.seq().len() ==> (#[trigger] r.seq()[k]).eid() == eid(self.vid(), lo_of(range.lo()) + k),
    { loop { } }
    /// the elements of the range, as slices of contiguous memory
    #[verifier::external_body]
    pub fn w_slices<R: RangeBounds<usize>>(&self, range: R, Tracked(w): Tracked<&mut World>) -> (r: It<&[ConcurrentElement<T>]>)
        requires range_fits(range), !(range.hi() is Unbounded), lo_of(range.lo()) <= hi_of(range.hi(), 0) <= (old(w)@.lbc)(self.vid()),
        ensures quiet(old(w)@, final(w)@), flat(r.seq()).len() == hi_of(range.hi(), 0) - lo_of(range.lo()),
            forall|k: int| 0 <= k < flat(r.seq()).len() ==> (#[trigger] flat(r.seq())[k]).eid() == eid(self.vid(), lo_of(range.lo()) + k),
    { loop { } }
    /// allocates memory and makes it visible; not to be called by two threads at a time
    #[verifier::external_body]
    pub fn w_grow_to_and_fill_with<F: Fn() -> ConcurrentElement<T>>(&self, new_capacity: usize, fill_with: F, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, PinnedVecGrowthError>)
        requires fills_empty(fill_with), may_grow(old(w)@, self.vid(), new_capacity as int),
        ensures
            new_capacity <= (old(w)@.mcap)(self.vid()) ==> r is Ok,
            r is Ok ==> grown_post(old(w)@, final(w)@, self.vid(), new_capacity as int),
            r is Err ==> quiet(old(w)@, final(w)@),
    { loop { } }
    /// the new memory would not be initialised
    #[verifier::external_body]
    pub fn w_grow_to(&self, new_capacity: usize, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, PinnedVecGrowthError>)
        requires false,
    { loop { } }
    #[verifier::external_body]
    pub fn w_iter_mut(&mut self, len: usize, Tracked(w): Tracked<&mut World>) -> (r: It<&ConcurrentElement<T>>)
        requires len <= (old(w)@.lbc)(old(self).vid()), old(w)@.excl.contains(old(self).vid()),
        ensures quiet(old(w)@, final(w)@), final(self).vid() == old(self).vid(), r.seq().len() == len,
            forall|k: int| 0 <= k < len ==> (#[trigger] r.seq()[k]).eid() == eid(old(self).vid(), k),
    { loop { } }
    /// initialises memory that is not in use
    #[verifier::external_body]
    pub fn w_fill_with<R: RangeBounds<usize>, F: Fn() -> ConcurrentElement<T>>(&self, range: R, fill_with: F, Tracked(w): Tracked<&mut World>)
        requires fills_empty(fill_with), range_fits(range), !(range.hi() is Unbounded), hi_of(range.hi(), 0) <= (old(w)@.lbc)(self.vid()),
        ensures quiet(old(w)@, final(w)@),
    { }
    /// number of elements, from the first position on, that are dropped with the vec
    pub uninterp spec fn dropped_len(&self) -> int;
    #[verifier::external_body]
    pub fn w_set_pinned_vec_len(&mut self, len: usize, Tracked(w): Tracked<&mut World>)
        requires len <= (old(w)@.lbc)(old(self).vid()),
        ensures quiet(old(w)@, final(w)@), final(self).vid() == old(self).vid(), final(self).dropped_len() == len,
    { }
    /// core::mem::swap
    #[verifier::external_body]
    pub fn w_exchange(&mut self, other: &mut Self, Tracked(w): Tracked<&mut World>)
        ensures quiet(old(w)@, final(w)@), *final(self) == *old(other), *final(other) == *old(self),
    { }
    /// Exclusive, by value: the first `len` elements; everything at positions `len..` is dropped
    #[verifier::external_body]
    pub fn w_into_inner<P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(self, len: usize, Tracked(w): Tracked<&mut World>) -> (r: P)
        requires old(w)@.excl.contains(self.vid()), len <= (old(w)@.lbc)(self.vid()),
        ensures quiet(old(w)@, final(w)@), r.pelems().len() == len,
            forall|k: int| 0 <= k < len ==> oenc((#[trigger] r.pelems()[k]).0.oval()) == (old(w)@.xval)(eid(self.vid(), k)),
    { loop { } }
    /// Exclusive. The current length must cover every element. (K1: a FixedVec grown beyond its
    /// capacity keeps a dangling pointer; see known_findings.txt)
    #[verifier::external_body]
    pub fn w_reserve_maximum_concurrent_capacity_fill_with<F: Fn() -> ConcurrentElement<T>>(&mut self, current_len: usize, maximum_capacity: usize, fill_with: F, Tracked(w): Tracked<&mut World>) -> (r: usize)
        requires
            fills_empty(fill_with),
            old(w)@.excl.contains(old(self).vid()), current_len == (old(w)@.xres)(old(self).vid()),
            current_len <= (old(w)@.lbc)(old(self).vid()),
        ensures
            final(self).vid() == old(self).vid(),
            reserve_post(old(w)@, final(w)@, old(self).vid(), current_len as int, maximum_capacity as int, r as int),
    { 0 }
    /// the new memory would not be initialised
    #[verifier::external_body]
    pub fn w_reserve_maximum_concurrent_capacity(&mut self, current_len: usize, maximum_capacity: usize, Tracked(w): Tracked<&mut World>) -> (r: usize)
        requires false,
    { 0 }
}
impl<T, C, S> PinnedConcurrentCol<ConcurrentElement<T>, C, S> {
    pub open spec fn vid(&self) -> int { self.con_pinned_vec.vid() }
}
/// a new collection is exclusively owned by its creator; its content is that of its vec and its counters
pub axiom fn adopt<T, C>(tracked w: &mut World, c: &PinnedConcurrentCol<ConcurrentElement<T>, C, ConcurrentVecState>)
    requires
        c.state.len_reserved.init_val() == c.con_pinned_vec.content().len(),
        c.state.len_written.init_val() == c.con_pinned_vec.content().len(),
        forall|e: ConcurrentElement<T>| #[trigger] c.con_pinned_vec.beyond(e) ==> e.0.oval() is None,
    ensures
        new_post(old(w)@, final(w)@, c.vid(), Seq::new(c.con_pinned_vec.content().len(), |k: int| oenc(c.con_pinned_vec.content()[k].0.oval())), c.con_pinned_vec.cmax());
pub open spec fn oenc<T>(o: Option<T>) -> Option<Val> { match o { Some(t) => Some(enc(t)), None => None } }

/// the counters of a collection that is in place count the positions of its vec
pub axiom fn in_place<T, C>(c: &PinnedConcurrentCol<ConcurrentElement<T>, C, ConcurrentVecState>)
    ensures c.state.len_reserved.ctr() == Ctr::Res(c.vid()), c.state.len_written.ctr() == Ctr::Wri(c.vid());
} // mod stub
