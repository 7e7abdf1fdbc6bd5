// Spec-level vocabulary over the extracted types, and dispatch of the shadow traits to the extracted
// functions. Every executable line here is a single call of an extracted function (or a trusted stub).
use crate::stub::*;
use crate::stub::xcore;

impl<T> ConcurrentElement<T> {
    pub open spec fn eid(&self) -> Eid { self.0.eid() }
    /// `map(|x| ..)` with the closure body inlined: `ConcurrentOption::map` up to the call of the closure
    pub fn w_peek(&self, Tracked(w): Tracked<&mut World>) -> (r: &T)
        requires old(w)@.known.contains(self.eid()), can_lock(old(w)@, self.eid()),
        ensures lock_post(old(w)@, final(w)@, self.eid()), saw(self.eid(), *r),
    {
        let h = self.0.w_spin_get_handle(SOME, SOME, Tracked(w));
        MaybeUninit::w_assume_init_ref(self.0.value.w_get(Tracked(w)), Tracked(w))
    }
    /// ... and after it
    pub fn w_unpeek(&self, Tracked(w): Tracked<&mut World>)
        requires old(w)@.held.len() > 0, old(w)@.held.last() == self.eid(), old(w)@.known.contains(self.eid()),
        ensures still(old(w)@, final(w)@), final(w)@.held == old(w)@.held.drop_last(),
    { let h = Handle { state: &self.0.state, success_state: SOME }; h.w_drop(Tracked(w)); }
}
impl<T, P> ConcurrentVec<T, P> where P: IntoConcurrentPinnedVec<ConcurrentElement<T>> {
    pub open spec fn vid(&self) -> int { self.core.vid() }
}
impl<T, C> PinnedConcurrentCol<ConcurrentElement<T>, C, ConcurrentVecState> where C: ConcurrentPinnedVec<ConcurrentElement<T>> {
    /// the memory of a reserved position is there: it is no growth duty any longer
    pub fn w_single_item_as_ref(&self, idx: usize, Tracked(w): Tracked<&mut World>) -> (r: &ConcurrentElement<T>)
        requires old(w)@.duty.contains(eid(self.vid(), idx as int)),
        ensures
            r.eid() == eid(self.vid(), idx as int), secured_post(old(w)@, final(w)@, self.vid(), idx as int, 1),
    { let r = self.d_single_item_as_ref(idx, Tracked(w)); proof { discharge(w, self.vid()); } r }
    pub fn w_n_items_buffer_as_slices(&self, begin_idx: usize, num_items: usize, Tracked(w): Tracked<&mut World>) -> (r: It<&[ConcurrentElement<T>]>)
        requires forall|k: int| begin_idx <= k < begin_idx + num_items ==> old(w)@.duty.contains(#[trigger] eid(self.vid(), k)),
        ensures
            secured_post(old(w)@, final(w)@, self.vid(), begin_idx as int, num_items as int),
            flat(r.seq()).len() == num_items,
            forall|k: int| 0 <= k < num_items ==> (#[trigger] flat(r.seq())[k]).eid() == eid(self.vid(), begin_idx + k),
    { let r = self.d_n_items_buffer_as_slices(begin_idx, num_items, Tracked(w)); proof { discharge(w, self.vid()); } r }
    pub fn w_new_from_pinned<P: IntoConcurrentPinnedVec<ConcurrentElement<T>, ConPinnedVec = C>>(pinned: P, Tracked(w): Tracked<&mut World>) -> (r: Self)
        ensures
            new_post(old(w)@, final(w)@, r.vid(), Seq::new(pinned.pelems().len(), |k: int| oenc(pinned.pelems()[k].0.oval())), pinned.pmax()),
    {
        let r = Self::d_new_from_pinned(pinned, Tracked(w));
        let ghost g = w@;
        proof { adopt(w, &r); assert(Seq::new(r.con_pinned_vec.content().len(), |k: int| oenc(r.con_pinned_vec.content()[k].0.oval())) =~= Seq::new(pinned.pelems().len(), |k: int| oenc(pinned.pelems()[k].0.oval()))); }
        r
    }
}
impl<'a, T, P> ConcurrentSlice<'a, T, P> where P: IntoConcurrentPinnedVec<ConcurrentElement<T>> {
    pub open spec fn vid(&self) -> int { self.vec.core.vid() }
    /// the window lies within the initialised positions
    pub open spec fn wf(&self, w: WS) -> bool {
        &&& self.a + self.len <= (w.lbr)(self.vid())
        &&& self.a + self.len <= (w.lbc)(self.vid())
        &&& all_known(w, self.vid(), self.a as int, self.a + self.len)
    }
    /// the window of `n` elements from position `a` of vec `v`
    pub open spec fn is_win(&self, v: int, a: int, n: int) -> bool { self.vid() == v && self.a == a && self.len == n }
}

/// `n` is a length of vec `v` observed between the worlds `a` and `b`: a gap-free prefix, containing
/// every gap-free prefix known before
pub open spec fn len_ok(a: WS, b: WS, v: int, n: int) -> bool {
    &&& 0 <= n <= usize::MAX
    &&& all_known(b, v, 0, n)
    &&& n <= (b.lbr)(v) && n <= (b.lbc)(v)
    &&& forall|m: int| #[trigger] all_known(a, v, 0, m) ==> m <= n
}
pub broadcast proof fn lem_len_post(a: WS, b: WS, c: WS, v: int, n: int)
    requires #[trigger] len_ok(a, b, v, n), #[trigger] kn(b, c),
    ensures len_ok(a, c, v, n),
{
    assert forall|k: int| 0 <= k < n implies c.known.contains(#[trigger] eid(v, k)) by { assert(b.known.contains(eid(v, k))); }
}
pub broadcast proof fn lem_len_pre(a: WS, b: WS, c: WS, v: int, n: int)
    requires #[trigger] len_ok(b, c, v, n), #[trigger] kn(a, b),
    ensures len_ok(a, c, v, n),
{
    assert forall|m: int| #[trigger] all_known(a, v, 0, m) implies m <= n by {
        assert forall|k: int| 0 <= k < m implies b.known.contains(#[trigger] eid(v, k)) by { assert(a.known.contains(eid(v, k))); }
        assert(all_known(b, v, 0, m));
    }
}
pub broadcast proof fn lem_cap_post(a: WS, b: WS, c: WS, v: int, n: int)
    requires #[trigger] cap_seen(a, b, v, n), #[trigger] kn(b, c), ensures cap_seen(a, c, v, n),
{ }
pub broadcast proof fn lem_cap_pre(a: WS, b: WS, c: WS, v: int, n: int)
    requires #[trigger] cap_seen(b, c, v, n), #[trigger] kn(a, b), ensures cap_seen(a, c, v, n),
{ }
pub broadcast proof fn lem_win<T>(s: Seq<&ConcurrentElement<T>>, v: int, from: int)
    requires #[trigger] elems_of(s, v, from), ensures #[trigger] eids(s) == win_eids(v, from, s.len() as int),
{ assert(eids(s) =~= win_eids(v, from, s.len() as int)); }
pub broadcast group ax_glue { lem_len_post, lem_len_pre, lem_cap_post, lem_cap_pre, lem_win, lem_has }
/// every value `x` at the first `n` positions is taken out, once and in order
pub open spec fn takes(x: spec_fn(Eid) -> Option<Val>, v: int, n: int) -> Seq<Ev> decreases n {
    if n <= 0 { Seq::empty() } else if x(eid(v, n - 1)) is Some { takes(x, v, n - 1).push(Ev::Take(eid(v, n - 1))) } else { takes(x, v, n - 1) }
}
/// (`waits`: also if another access holds the element)
pub open spec fn refs_win<R>(w: WS, v: int, a: int, q: Seq<Option<R>>, waits: bool) -> bool {
    forall|k: int| 0 <= k < q.len() && at(k) ==> ((#[trigger] q[k]) matches Some(p) ==> ident(p) == eid(v, a + k))
        && (w.known.contains(eid(v, a + k)) && (waits || uncontended(eid(v, a + k))) ==> q[k] is Some)
}
pub open spec fn elem_ok(w: WS, e: Eid) -> bool { user_ok(w) && w.known.contains(e) && can_lock(w, e) }
/// `x` is a clone of a value that the element `e` had
pub open spec fn cloned_of<T: Clone>(e: Eid, x: T) -> bool { exists|u: &T| #[trigger] saw(e, *u) && u.clone_rel(x) }
/// `x` is the result of `f` on a value that the element `e` had
pub open spec fn mapped_of<T, U, F: FnOnce(&T) -> U>(f: F, e: Eid, x: U) -> bool { exists|u: &T| #[trigger] saw(e, *u) && f.ensures((u,), x) }
pub open spec fn fold_step<T, U, F: FnOnce(U, &T) -> U>(f: F, e: Eid, a: U, b: U) -> bool { exists|u: &T| #[trigger] saw(e, *u) && f.ensures((a, u), b) }
pub open spec fn red_step<T, F: FnOnce(&T, &T) -> T>(f: F, e: Eid, a: T, b: T) -> bool { exists|u: &T| #[trigger] saw(e, *u) && f.ensures((&a, u), b) }
/// `r` is the result of comparing values the two elements had (at one and the same moment for one element)
pub open spec fn elem_eq<T: PartialEq>(e: Eid, d: Eid, r: bool) -> bool {
    exists|x: &T, y: &T| #[trigger] saw(e, *x) && #[trigger] saw(d, *y) && (e == d ==> x == y) && x.eq_rel(y, r)
}
pub open spec fn val_eq<T: PartialEq>(e: Eid, y: &T, r: bool) -> bool { exists|x: &T| #[trigger] saw(e, *x) && x.eq_rel(y, r) }
pub open spec fn eids<T>(s: Seq<&ConcurrentElement<T>>) -> Seq<Eid> { Seq::new(s.len(), |k: int| s[k].eid()) }
pub open spec fn all_ok<T>(w: WS, s: Seq<&ConcurrentElement<T>>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> w.known.contains((#[trigger] s[k]).eid())
}
/// the elements of positions `from..from+s.len()` of vec `v`, in order
pub open spec fn elems_of<T>(s: Seq<&ConcurrentElement<T>>, v: int, from: int) -> bool {
    forall|k: int| #![trigger s[k]] #![trigger at(k)] 0 <= k < s.len() ==> s[k].eid() == eid(v, from + k)
}
pub open spec fn clones_of<T: Clone>(s: Seq<T>, v: int, from: int) -> bool {
    forall|k: int| 0 <= k < s.len() ==> cloned_of(eid(v, from + k), #[trigger] s[k])
}
/// `v` was written to `e`, whatever became of the value before it
pub open spec fn puts(ev: Ev, e: Eid, v: Val) -> bool { ev == Ev::Set(e, v) || (ev matches Ev::Rep(a, b, _) && a == e && b == v) }
pub open spec fn is_clone_set<T: Clone>(ev: Ev, e: Eid, value: T) -> bool { exists|x: T| #[trigger] value.clone_rel(x) && puts(ev, e, enc(x)) }
pub open spec fn is_fn_set<T, F: FnOnce(usize) -> T>(ev: Ev, e: Eid, f: F, k: usize) -> bool { exists|x: T| #[trigger] f.ensures((k,), x) && puts(ev, e, enc(x)) }
pub open spec fn swapped(log: Seq<Ev>, old_log: Seq<Ev>, a: Eid, b: Eid) -> bool {
    if a == b { log == old_log } else { log == old_log.push(Ev::Swap(a, b)) || log == old_log.push(Ev::Swap(b, a)) }
}
/// a new vec with exactly the values `s`, exclusively owned by this thread
pub open spec fn fresh_vec(a: WS, b: WS, v: int) -> bool {
    &&& kn(a, b) && xsame_ex(a, b)
    &&& a.owned == b.owned && a.duty == b.duty && a.held == b.held
    &&& !a.excl.contains(v) && b.excl == a.excl.insert(v)
    &&& all_known(b, v, 0, (b.xwri)(v))
}
pub open spec fn holds_vals<T>(w: WS, v: int, s: Seq<T>) -> bool {
    &&& (w.xres)(v) == s.len()
    &&& s.len() <= (w.lbc)(v) || s.len() == 0
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] (w.xval)(eid(v, k)) == Some(enc(s[k]))
    &&& forall|k: int| k >= s.len() ==> #[trigger] (w.xval)(eid(v, k)) is None
    &&& all_known(w, v, 0, s.len() as int)
}
/// output of the Debug implementation of a list of values: `[a, b, c]`
pub open spec fn dbg_list(s: Seq<Val>) -> Seq<Tok> { seq![Tok::Lit("["@)] + dbg_items(s) + seq![Tok::Lit("]"@)] }
pub open spec fn dbg_items(s: Seq<Val>) -> Seq<Tok> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.len() == 1 { seq![Tok::Dbg(s[0])] }
    else { dbg_items(s.drop_last()) + seq![Tok::Lit(", "@), Tok::Dbg(s.last())] }
}
pub open spec fn saw_vals<T>(s: Seq<T>, e: Seq<Eid>) -> bool {
    s.len() == e.len() && forall|k: int| 0 <= k < s.len() ==> saw(e[k], #[trigger] s[k])
}
pub open spec fn enc_all<T>(s: Seq<T>) -> Seq<Val> { Seq::new(s.len(), |k: int| enc(s[k])) }

impl<T: PartialEq> PartialEq for ConcurrentElement<T> {
    open spec fn eq_req(&self, o: &Self, w: WS) -> bool {
        elem_ok(w, self.eid()) && elem_ok(w, o.eid()) && eq_total::<T>()
    }
    open spec fn eq_rel(&self, o: &Self, r: bool) -> bool { elem_eq::<T>(self.eid(), o.eid(), r) }
    fn w_eq(&self, o: &Self, Tracked(w): Tracked<&mut World>) -> (r: bool) { self.w_eq__PartialEq(o, Tracked(w)) }
}
impl<T: PartialEq> PartialEq<T> for ConcurrentElement<T> {
    open spec fn eq_req(&self, o: &T, w: WS) -> bool { elem_ok(w, self.eid()) && eq_total::<T>() }
    open spec fn eq_rel(&self, o: &T, r: bool) -> bool { val_eq(self.eid(), o, r) }
    fn w_eq(&self, o: &T, Tracked(w): Tracked<&mut World>) -> (r: bool) { self.w_eq__PartialEq_T(o, Tracked(w)) }
}
impl<T> FromIterator<T> for ConcurrentVec<T> {
    open spec fn from_req(s: Seq<T>, w: WS) -> bool { idle(w) }
    open spec fn from_rel(s: Seq<T>, a: WS, b: WS, r: Self) -> bool { fresh_vec(a, b, r.vid()) && holds_vals(b, r.vid(), s) }
    fn w_from_iter<I: IntoIterator<Item = T>>(iter: I, Tracked(w): Tracked<&mut World>) -> (r: Self) { ConcurrentVec::w_from_iter(iter, Tracked(w)) }
}
/// the decision for a writer of positions `from..to` when the capacity is `cap`: exactly the writer
/// whose positions contain the first position without memory grows; those before write, those after wait
pub open spec fn permit_of(p: WritePermit, cap: int, from: int, to: int) -> bool {
    &&& p is JustWrite <==> to <= cap
    &&& p is GrowThenWrite <==> from <= cap < to
    &&& p is Spin <==> cap < from
}
/// C02, growth hand-off: writers own disjoint ranges; at most one is told to grow at a capacity, and
/// whenever some writer lacks memory and all positions up to it are owned by writers, one is told to.
pub proof fn lem_one_grower(p: WritePermit, q: WritePermit, cap: int, a: int, b: int, c: int, d: int)
    requires permit_of(p, cap, a, b), permit_of(q, cap, c, d), a < b, c < d, b <= c || d <= a,
    ensures !(p is GrowThenWrite && q is GrowThenWrite),
{ }
pub proof fn lem_some_grower(ps: Seq<WritePermit>, fr: Seq<int>, cap: int)
    requires fr.len() == ps.len() + 1, ps.len() > 0,
        forall|i: int| 0 <= i < ps.len() ==> fr[i] < #[trigger] fr[i + 1],
        forall|i: int| 0 <= i < ps.len() ==> permit_of(#[trigger] ps[i], cap, fr[i], fr[i + 1]),
        fr[0] <= cap < fr.last(),
    ensures exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]) is GrowThenWrite,
    decreases ps.len(),
{
    let n = ps.len() as int;
    if cap >= fr[n - 1] { assert(permit_of(ps[n - 1], cap, fr[n - 1], fr[n])); }
    else {
        let ps2 = ps.drop_last();
        let fr2 = fr.drop_last();
        assert forall|i: int| 0 <= i < ps2.len() implies permit_of(#[trigger] ps2[i], cap, fr2[i], fr2[i + 1]) by { assert(ps2[i] == ps[i]); }
        assert(n > 1);
        lem_some_grower(ps2, fr2, cap);
        let i = choose|i: int| 0 <= i < ps2.len() && (#[trigger] ps2[i]) is GrowThenWrite;
        assert(ps[i] is GrowThenWrite);
    }
}
/// the values `s` were appended to the exclusively owned vec `v`
pub open spec fn grown<T>(a: WS, b: WS, v: int, s: Seq<T>) -> bool {
    &&& (b.xres)(v) == (a.xres)(v) + s.len()
    &&& s.len() > 0 ==> (b.xres)(v) <= (b.lbc)(v)
    &&& forall|k: int| (a.xres)(v) <= k < (a.xres)(v) + s.len() ==> (b.xval)(#[trigger] eid(v, k)) == Some(enc(s[k - (a.xres)(v)]))
    &&& forall|e: Eid| e.v == v && !((a.xres)(v) <= e.k < (a.xres)(v) + s.len()) ==> #[trigger] (b.xval)(e) == (a.xval)(e)
}
/// after `d` of the `n` items have been written to the reserved positions `b..b+n`
pub open spec fn ext_inv<T>(o: WS, w: WS, v: int, b: int, n: int, d: int, items: Seq<T>) -> bool {
    &&& kn(o, w) && xsame_but(o, w, v)
    &&& w.duty =~= o.duty && w.held == o.held
    &&& w.log == o.log + inits(v, b, items.take(d))
    &&& (forall|e: Eid| #[trigger] w.owned.contains(e) <==> (o.owned.contains(e) || (e.v == v && b + d <= e.k < b + n)))
    &&& all_known(w, v, b, b + d)
    &&& b + n <= (w.lbr)(v)
    &&& n > 0 ==> b + n <= (w.lbc)(v) && b + n <= (w.mcap)(v)
    &&& (forall|k: int| b <= k < b + n ==> !o.known.contains(#[trigger] eid(v, k)) && !o.owned.contains(eid(v, k)))
    &&& o.excl.contains(v) ==> {
        &&& (o.xres)(v) == b && (w.xres)(v) == b + n
        &&& (forall|k: int| b <= k < b + d ==> (w.xval)(#[trigger] eid(v, k)) == Some(enc(items[k - b])))
        &&& (forall|e: Eid| e.v == v && !(b <= e.k < b + d) ==> #[trigger] (w.xval)(e) == (o.xval)(e))
    }
}
pub proof fn lem_ext_step<T>(o: WS, w0: WS, w1: WS, v: int, b: int, n: int, d: int, items: Seq<T>)
    requires ext_inv(o, w0, v, b, n, d, items), 0 <= d < n, d < items.len(),
        exists|m: WS| #[trigger] quiet(w0, m) && init_post(m, w1, eid(v, b + d), enc(items[d])),
    ensures ext_inv(o, w1, v, b, n, d + 1, items),
{
    let m = choose|m: WS| #[trigger] quiet(w0, m) && init_post(m, w1, eid(v, b + d), enc(items[d]));
    assert(inits(v, b, items.take(d + 1)) =~= inits(v, b, items.take(d)).push(Ev::Init(eid(v, b + d), enc(items[d]))));
    assert(w1.log =~= o.log + inits(v, b, items.take(d + 1)));
    assert forall|k: int| b <= k < b + d + 1 implies w1.known.contains(#[trigger] eid(v, k)) by {
        if k < b + d { assert(w0.known.contains(eid(v, k))); }
    }
    assert forall|e: Eid| #[trigger] w1.owned.contains(e) <==> (o.owned.contains(e) || (e.v == v && b + (d + 1) <= e.k < b + n)) by {
        assert(m.owned.contains(e) <==> (o.owned.contains(e) || (e.v == v && b + d <= e.k < b + n)));
        if e == eid(v, b + d) { } else if e.v == v && e.k == b + d { assert(e == eid(e.v, e.k)); }
    }
    if o.excl.contains(v) {
        assert forall|k: int| b <= k < b + d + 1 implies (w1.xval)(#[trigger] eid(v, k)) == Some(enc(items[k - b])) by {
            if k < b + d { assert((w0.xval)(eid(v, k)) == Some(enc(items[k - b]))); }
        }
        assert forall|e: Eid| e.v == v && !(b <= e.k < b + d + 1) implies #[trigger] (w1.xval)(e) == (o.xval)(e) by {
            assert((m.xval)(e) == (w0.xval)(e));
        }
    }
}
pub proof fn lem_flat_skip<E>(s: Seq<&[E]>, k: int)
    requires 0 <= k < s.len(),
    ensures flat(s.skip(k)) == s[k]@ + flat(s.skip(k + 1)),
{ assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }
pub open spec fn win_eids(v: int, from: int, n: int) -> Seq<Eid> { Seq::new(n as nat, |k: int| eid(v, from + k)) }
pub open spec fn dbg_of<T>(o: Seq<Tok>, f: Seq<Tok>, v: int, from: int, n: int) -> bool {
    exists|s: Seq<T>| #[trigger] saw_vals(s, win_eids(v, from, n)) && f == o + dbg_list(enc_all(s))
}
pub open spec fn elems_eq<T: PartialEq>(a: Seq<&ConcurrentElement<T>>, b: Seq<&ConcurrentElement<T>>, r: bool) -> bool {
    if r { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> elem_eq::<T>((#[trigger] a[i]).eid(), b[i].eid(), true) }
    else { a.len() != b.len() || exists|i: int| 0 <= i < a.len() && at(i) && elem_eq::<T>((#[trigger] a[i]).eid(), b[i].eid(), false) }
}
pub open spec fn elems_vals_eq<T: PartialEq>(a: Seq<&ConcurrentElement<T>>, b: Seq<&T>, r: bool) -> bool {
    if r { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> val_eq((#[trigger] a[i]).eid(), b[i], true) }
    else { a.len() != b.len() || exists|i: int| 0 <= i < a.len() && at(i) && val_eq((#[trigger] a[i]).eid(), b[i], false) }
}
pub open spec fn seq_eq<T: PartialEq>(v: int, a: int, n: int, w: int, b: int, m: int, r: bool) -> bool {
    if r { n == m && forall|i: int| 0 <= i < n && at(i) ==> elem_eq::<T>(#[trigger] eid(v, a + i), eid(w, b + i), true) }
    else { n != m || exists|i: int| 0 <= i < n && #[trigger] at(i) && elem_eq::<T>(eid(v, a + i), eid(w, b + i), false) }
}
pub open spec fn vals_eq<T: PartialEq>(v: int, a: int, n: int, s: Seq<T>, r: bool) -> bool {
    if r { n == s.len() && forall|i: int| 0 <= i < n && at(i) ==> val_eq(#[trigger] eid(v, a + i), &s[i], true) }
    else { n != s.len() || exists|i: int| 0 <= i < n && #[trigger] at(i) && val_eq(eid(v, a + i), &s[i], false) }
}
pub proof fn lem_grown_holds<T>(a: WS, b: WS, v: int, s: Seq<T>, t: Seq<T>)
    requires holds_vals(a, v, s), grown(a, b, v, t), t.len() > 0, kn(a, b), all_known(b, v, s.len() as int, (s + t).len() as int),
    ensures holds_vals(b, v, s + t), s.push(t[0]) =~= s + seq![t[0]],
{
    assert forall|k: int| 0 <= k < (s + t).len() implies #[trigger] (b.xval)(eid(v, k)) == Some(enc((s + t)[k])) by {
        if k < s.len() { assert((a.xval)(eid(v, k)) == Some(enc(s[k]))); }
        
    }
    assert forall|k: int| k >= (s + t).len() implies #[trigger] (b.xval)(eid(v, k)) is None by { assert((a.xval)(eid(v, k)) is None); }
    assert forall|k: int| 0 <= k < (s + t).len() implies b.known.contains(#[trigger] eid(v, k)) by {
        if k < s.len() { assert(a.known.contains(eid(v, k))); }
    }
}
pub open spec fn filter_ok<T, F: Fn(&T) -> bool>(f: F, o: WS, n: WS, v: int, s: Seq<&ConcurrentElement<T>>) -> bool {
    exists|all: Seq<&ConcurrentElement<T>>, b: Seq<bool>| elems_of(all, v, 0) && len_ok(o, n, v, all.len() as int) && b.len() == all.len()
        && (forall|k: int| 0 <= k < all.len() ==> mapped_of(f, eid(v, k), #[trigger] b[k])) && s == #[trigger] select(all, b)
}
pub open spec fn filter_win<T, F: Fn(&T) -> bool>(f: F, v: int, a: int, n: int, s: Seq<&ConcurrentElement<T>>) -> bool {
    exists|all: Seq<&ConcurrentElement<T>>, b: Seq<bool>| elems_of(all, v, a) && all.len() == n && b.len() == all.len()
        && (forall|k: int| 0 <= k < all.len() ==> mapped_of(f, eid(v, a + k), #[trigger] b[k])) && s == #[trigger] select(all, b)
}
/// reduction of the window, left to right, starting from a clone of the first element
pub open spec fn reduced<T: Clone, F: Fn(&T, &T) -> T>(f: F, v: int, a: int, n: int, r: Option<T>) -> bool {
    if n == 0 { r is None } else {
        exists|acc: Seq<T>| #[trigger] acc.len() == n && cloned_of(eid(v, a), acc[0]) && r == Some(acc.last())
            && forall|k: int| 1 <= k < n ==> red_step(f, eid(v, a + k), acc[k - 1], #[trigger] acc[k])
    }
}
/// first position of an element equal to `value`
pub open spec fn found<T: PartialEq>(v: int, a: int, n: int, value: &T, r: Option<usize>) -> bool {
    match r {
        Some(i) => i < n && val_eq(eid(v, a + i), value, true) && forall|k: int| 0 <= k < i && at(k) ==> val_eq(#[trigger] eid(v, a + k), value, false),
        None => forall|k: int| 0 <= k < n && at(k) ==> val_eq(#[trigger] eid(v, a + k), value, false),
    }
}
/// does an element equal to `value` exist
pub open spec fn has_eq<T: PartialEq>(v: int, a: int, n: int, value: &T, r: bool) -> bool {
    &&& r ==> exists|k: int| 0 <= k < n && #[trigger] at(k) && val_eq(eid(v, a + k), value, true)
    &&& !r ==> forall|k: int| 0 <= k < n && at(k) ==> val_eq(#[trigger] eid(v, a + k), value, false)
}
pub broadcast proof fn lem_has<T: PartialEq>(v: int, a: int, n: int, value: &T, i: Option<usize>)
    requires #[trigger] found(v, a, n, value, i),
    ensures has_eq(v, a, n, value, i is Some),
{
    if i is Some { assert(at(i.unwrap() as int)); }
}
pub open spec fn nchunks(n: int, c: int) -> int { if n % c == 0 { n / c } else { n / c + 1 } }
pub open spec fn chunked<T, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(s: Seq<ConcurrentSlice<T, P>>, v: int, a: int, n: int, c: int) -> bool {
    s.len() == nchunks(n, c) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).is_win(v, a + i * c, imin(c, n - i * c))
}
pub proof fn lem_chunks(c: int) requires c > 0,
    ensures forall|n: int| n >= 0 ==> 0 <= #[trigger] (n / c) <= n && (n % c > 0 ==> n / c < n) && (n / c) * c <= n && n - (n / c) * c == n % c && 0 <= n % c < c,
{
    assert forall|n: int| n >= 0 implies 0 <= #[trigger] (n / c) <= n && (n % c > 0 ==> n / c < n) && (n / c) * c <= n && n - (n / c) * c == n % c && 0 <= n % c < c by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c);
        vstd::arithmetic::div_mod::lemma_mod_bound(n, c);
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, c);
        vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(n, 1, c);
        vstd::arithmetic::mul::lemma_mul_is_commutative(c, n / c);
        if n % c > 0 && n / c > 0 { vstd::arithmetic::mul::lemma_mul_ordering(n / c, c); }
    }
}
pub proof fn lem_chunk(n: int, c: int, i: int)
    requires n >= 0, c > 0, 0 <= i < nchunks(n, c),
    ensures 0 <= i * c < n,
        i < nchunks(n, c) - 1 || n % c == 0 ==> i * c + c <= n,
        i == nchunks(n, c) - 1 && n % c > 0 ==> i * c + n % c == n,
{
    lem_chunks(c);
    let q = n / c;
    vstd::arithmetic::mul::lemma_mul_nonnegative(i, c);
    if i < q {
        vstd::arithmetic::mul::lemma_mul_inequality(i + 1, q, c);
        vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(c, i, 1);
    }
}
/// C07: the chunks tile the window: consecutive, disjoint, complete
pub proof fn lem_tiles<T, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>>(s: Seq<ConcurrentSlice<T, P>>, v: int, a: int, n: int, c: int)
    requires chunked(s, v, a, n, c), c > 0, n >= 0,
    ensures
        n == 0 <==> s.len() == 0,
        s.len() > 0 ==> s[0].a == a && s.last().a + s.last().len == a + n,
        forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] s[i]).a + s[i].len == s[i + 1].a && s[i].len == c,
        forall|i: int| 0 <= i < s.len() ==> 0 < (#[trigger] s[i]).len <= c,
{
    lem_chunks(c);
    vstd::arithmetic::div_mod::lemma_small_mod(0nat, c as nat);
    assert forall|i: int| 0 <= i < s.len() implies 0 < (#[trigger] s[i]).len <= c && (i < s.len() - 1 ==> s[i].a + s[i].len == s[i + 1].a && s[i].len == c)
        && (i == s.len() - 1 ==> s[i].a + s[i].len == a + n) by {
        lem_chunk(n, c, i);
        assert(s[i].is_win(v, a + i * c, imin(c, n - i * c)));
        if i < s.len() - 1 {
            assert(s[i + 1].is_win(v, a + (i + 1) * c, imin(c, n - (i + 1) * c)));
            vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(c, i, 1);
        } else {
            vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(c, n / c - 1, 1);
        }
    }
    if s.len() > 0 { assert(s[0].is_win(v, a + 0 * c, imin(c, n - 0 * c))); assert(s[s.len() - 1].len > 0); }
    if n > 0 && s.len() == 0 { assert(n / c == 0 && n % c == 0); assert(false) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c); } }
}
/// `s` are references to elements of the window, in order, at most one per element, and one for every
/// initialised element that no other access holds
pub open spec fn refs_ok<R>(w: WS, v: int, a: int, n: int, s: Seq<R>, waits: bool) -> bool {
    exists|q: Seq<Option<R>>| q.len() == n && s == #[trigger] opts(q) && refs_win(w, v, a, q, waits)
}
