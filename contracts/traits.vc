@fn Clone for ConcurrentVec::clone
  props: C12
  args:
  requires: idle($o)
  ensures: fresh_vec($o, $n, r.vid())
  ensures: exists|s: Seq<T>| #[trigger] holds_vals($n, r.vid(), s) && clones_of(s, self.vid(), 0) && len_ok($o, $n, self.vid(), s.len() as int)

@fn FromIterator<T> for ConcurrentVec::from_iter
  props: C12
  args: iter
  locals: vec iter
  panics: iter.items().len() > doubling_cap(32)
  requires: idle($o)
  ensures: fresh_vec($o, $n, r.vid())
  ensures: holds_vals($n, r.vid(), iter.items())
  start: let ghost items = iter.items();
loop 0 F
  inv: idle($w), fresh_vec($o, $w, vec.vid()), $s == items, idle($o)
  inv: holds_vals($w, vec.vid(), items.take($k))
  before: proof { assert(items.take(0) =~= Seq::<T>::empty()); }
  bstart: let ghost w0 = $w;
  bend: proof { assert(items.take($k) =~= items.take($k - 1).push(items[$k - 1])); lem_grown_holds(w0, $w, vec.vid(), items.take($k - 1), seq![items[$k - 1]]); }
  end: proof { assert(items.take(items.len() as int) =~= items); }

@fn Index<usize> for ConcurrentVec::index
  props: C04
  args: i
  panics: !all_known($o, self.vid(), 0, i + 1)
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: r.eid() == eid(self.vid(), i as int), all_known($n, self.vid(), 0, i + 1)

@fn Index<usize> for ConcurrentSlice::index
  props: C04 C06
  args: i
  panics: i >= self.len
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: i < self.len, r.eid() == eid(self.vid(), self.a + i)

@fn IntoIterator for ConcurrentVec::into_iter
  props: C12
  args:
  requires: idle($o), $o.excl.contains(self.vid())
  ensures: quiet($o, $n)
  ensures: r.iter.seq().len() <= ($o.xres)(self.vid())
  ensures: r.iter.seq().len() == ($o.xres)(self.vid()) || r.iter.seq().len() >= ($o.lbc)(self.vid())
  ensures: forall|k: int| 0 <= k < r.iter.seq().len() ==> oenc((#[trigger] r.iter.seq()[k]).0.oval()) == ($o.xval)(eid(self.vid(), k))

@fn Iterator for ElementValuesIter::next
  props: C12
  args:
  requires: idle($o), old(self).iter.seq().len() > 0 ==> old(self).iter.seq()[0].0.oval() is Some
  ensures: quiet($o, $n)
  ensures: old(self).iter.seq().len() == 0 ==> r is None && final(self).iter.seq() == old(self).iter.seq()
  ensures: old(self).iter.seq().len() > 0 ==> r is Some && r == old(self).iter.seq()[0].0.oval() && final(self).iter.seq() == old(self).iter.seq().drop_first()

@fn Debug for ConcurrentElement::fmt
  props: C11
  args: f
  locks: yes
  requires: elem_ok($o, self.eid())
  ensures: quiet($o, $n)
  ensures: r is Ok ==> exists|u: &T| #[trigger] saw(self.eid(), *u) && final(f).out() == old(f).out().push(Tok::Dbg(enc(*u)))

@fn Debug for ConcurrentVec::fmt
  props: C11
  args: f
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: r is Ok ==> exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && dbg_of::<T>(old(f).out(), final(f).out(), self.vid(), 0, n)

@fn Debug for ConcurrentSlice::fmt
  props: C11
  args: f
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r is Ok ==> dbg_of::<T>(old(f).out(), final(f).out(), self.vid(), self.a as int, self.len as int)

@fn ::fmt_elems_iter
  props: C11
  args: f iter
  locks: yes
  requires: idle($o), all_ok($o, iter.seq())
  ensures: quiet($o, $n)
  ensures: r is Ok ==> exists|s: Seq<T>| #[trigger] saw_vals(s, eids(iter.seq())) && final(f).out() == old(f).out() + dbg_list(enc_all(s))
  start: let ghost all = iter.seq(); let ghost out0 = f.out(); let ghost out_b = out0.push(Tok::Lit("["@));
  end: proof { if r is Ok {
      if all.len() == 0 {
        let s = Seq::<T>::empty();
        assert(enc_all(s) =~= Seq::<Val>::empty());
        assert(saw_vals(s, eids(all)));
        assert(f.out() =~= out0 + dbg_list(enc_all(s)));
      } else {
        let s = choose|s: Seq<T>| #[trigger] saw_vals(s, eids(all)) && f.out() == (out_b + dbg_items(enc_all(s))).push(Tok::Lit("]"@));
        assert(saw_vals(s, eids(all)));
        assert(f.out() =~= out0 + dbg_list(enc_all(s)));
      } } }
loop 0 F
  before: let ghost mut vals: Seq<T> = seq![choose|u: T| saw(all[0].eid(), u) && f.out() == out_b.push(Tok::Dbg(enc(u)))];
    proof { assert(enc_all(vals) =~= seq![enc(vals[0])]); assert(dbg_items(enc_all(vals)) =~= seq![Tok::Dbg(enc(vals[0]))]);
      assert(f.out() =~= out_b + dbg_items(enc_all(vals))); }
  inv: idle($o), quiet($o, $w), all_ok($o, all), $s == all.drop_first(), all.len() > 0
  inv: vals.len() == $k + 1, forall|j: int| 0 <= j <= $k ==> saw(all[j].eid(), #[trigger] vals[j])
  inv: f.out() == out_b + dbg_items(enc_all(vals)), all.len() == $k + 1 ==> saw_vals(vals, eids(all))
  ens: exists|s: Seq<T>| #[trigger] saw_vals(s, eids(all)) && f.out() == out_b + dbg_items(enc_all(s))
  ens: quiet($o, $w)
  bstart: let ghost out1 = f.out();
  bend: proof {
      let u = choose|u: T| saw(all[$k].eid(), u) && f.out() == out1.push(Tok::Lit(", "@)).push(Tok::Dbg(enc(u)));
      let v1 = vals.push(u);
      assert(enc_all(v1).drop_last() =~= enc_all(vals));
      assert(dbg_items(enc_all(v1)) =~= dbg_items(enc_all(vals)) + seq![Tok::Lit(", "@), Tok::Dbg(enc(u))]);
      assert(f.out() =~= out_b + dbg_items(enc_all(v1)));
      vals = v1;
    }

@fn PartialEq for ConcurrentElement::eq
  props: C11
  args: other
  locks: yes
  requires: elem_ok($o, self.eid()), elem_ok($o, other.eid()), eq_total::<T>()
  ensures: quiet($o, $n)
  ensures: elem_eq::<T>(self.eid(), other.eid(), r)

@fn PartialEq<T> for ConcurrentElement::eq
  props: C11 C10
  args: other
  locks: yes
  requires: elem_ok($o, self.eid()), eq_total::<T>()
  ensures: quiet($o, $n)
  ensures: val_eq(self.eid(), other, r)

@fn PartialEq for ConcurrentVec::eq
  props: C11
  args: other
  requires: idle($o), eq_total::<T>()
  ensures: quiet($o, $n)
  ensures: exists|n: int, m: int| #[trigger] len_ok($o, $n, self.vid(), n) && #[trigger] len_ok($o, $n, other.vid(), m) && seq_eq::<T>(self.vid(), 0, n, other.vid(), 0, m, r)

@fn PartialEq<ConcurrentSlice<T>> for ConcurrentVec::eq
  props: C11
  args: other
  requires: idle($o), eq_total::<T>(), other.wf($o)
  ensures: quiet($o, $n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && seq_eq::<T>(self.vid(), 0, n, other.vid(), other.a as int, other.len as int, r)

@fn PartialEq<[T]> for ConcurrentVec::eq
  props: C11
  args: other
  requires: idle($o), eq_total::<T>()
  ensures: quiet($o, $n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && vals_eq::<T>(self.vid(), 0, n, other@, r)

@fn PartialEq<[T;N]> for ConcurrentVec::eq
  props: C11
  args: other
  requires: idle($o), eq_total::<T>()
  ensures: quiet($o, $n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && vals_eq::<T>(self.vid(), 0, n, other@, r)

@fn PartialEq for ConcurrentSlice::eq
  props: C11
  args: other
  requires: idle($o), eq_total::<T>(), self.wf($o), other.wf($o)
  ensures: quiet($o, $n)
  ensures: seq_eq::<T>(self.vid(), self.a as int, self.len as int, other.vid(), other.a as int, other.len as int, r)

@fn PartialEq<ConcurrentVec<T>> for ConcurrentSlice::eq
  props: C11
  args: other
  requires: idle($o), eq_total::<T>(), self.wf($o)
  ensures: quiet($o, $n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, other.vid(), n) && seq_eq::<T>(self.vid(), self.a as int, self.len as int, other.vid(), 0, n, r)

@fn PartialEq<[T]> for ConcurrentSlice::eq
  props: C11
  args: other
  requires: idle($o), eq_total::<T>(), self.wf($o)
  ensures: quiet($o, $n)
  ensures: vals_eq::<T>(self.vid(), self.a as int, self.len as int, other@, r)

@fn PartialEq<[T;N]> for ConcurrentSlice::eq
  props: C11
  args: other
  requires: idle($o), eq_total::<T>(), self.wf($o)
  ensures: quiet($o, $n)
  ensures: vals_eq::<T>(self.vid(), self.a as int, self.len as int, other@, r)

@fn ::eq_elem_iters
  attr: #[verifier::loop_isolation(false)]
  props: C11
  args: a b
  requires: idle($o), eq_total::<T>(), all_ok($o, a.seq()), all_ok($o, b.seq())
  ensures: quiet($o, $n)
  ensures: elems_eq(a.seq(), b.seq(), r)
  start: let ghost a0 = a.seq(); let ghost b0 = b.seq(); let ghost mut k: int = 0;
    proof { assert(a0.skip(0) =~= a0); assert(b0.skip(0) =~= b0); }
loop 0 L
  inv: idle($o), quiet($o, $w), eq_total::<T>(), all_ok($o, a0), all_ok($o, b0)
  inv: 0 <= k <= a0.len(), k <= b0.len(), a.seq() == a0.skip(k), b.seq() == b0.skip(k)
  inv: forall|i: int| 0 <= i < k ==> elem_eq::<T>((#[trigger] a0[i]).eid(), b0[i].eid(), true)
  dec: a0.len() - k
  bstart: proof { if k < a0.len() { assert(a0.skip(k)[0] == a0[k]); assert(a0.skip(k).drop_first() =~= a0.skip(k + 1)); } if k < b0.len() { assert(b0.skip(k)[0] == b0[k]); assert(b0.skip(k).drop_first() =~= b0.skip(k + 1)); } k = k + 1; }
script
  attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
  start: let ghost a0 = a.seq(); let ghost b0 = b.seq(); proof { assert(b0.skip(0) =~= b0); }
loop 0 F
  inv: idle($o), quiet($o, $w), eq_total::<T>(), all_ok($o, a0), all_ok($o, b0), $s == a0
  inv: $k <= b0.len(), b.seq() == b0.skip($k)
  inv: forall|i: int| 0 <= i < $k ==> elem_eq::<T>((#[trigger] a0[i]).eid(), b0[i].eid(), true)
  ens: quiet($o, $w), a0.len() <= b0.len(), b.seq() == b0.skip(a0.len() as int)
  ens: forall|i: int| 0 <= i < a0.len() ==> elem_eq::<T>((#[trigger] a0[i]).eid(), b0[i].eid(), true)
  bstart: proof { assert(at($k - 1)); assert($s[$k - 1] == a0[$k - 1]); assert($k <= a0.len()); if $k <= b0.len() { assert(b0.skip($k - 1)[0] == b0[$k - 1]); assert(b0.skip($k - 1).drop_first() =~= b0.skip($k)); } }

@fn ::eq_elem_iter_to_iter
  attr: #[verifier::loop_isolation(false)]
  props: C11
  args: a b
  requires: idle($o), eq_total::<T>(), all_ok($o, a.seq())
  ensures: quiet($o, $n)
  ensures: elems_vals_eq(a.seq(), b.seq(), r)
  start: let ghost a0 = a.seq(); let ghost b0 = b.seq(); let ghost mut k: int = 0;
    proof { assert(a0.skip(0) =~= a0); assert(b0.skip(0) =~= b0); }
loop 0 L
  inv: idle($o), quiet($o, $w), eq_total::<T>(), all_ok($o, a0)
  inv: 0 <= k <= a0.len(), k <= b0.len(), a.seq() == a0.skip(k), b.seq() == b0.skip(k)
  inv: forall|i: int| 0 <= i < k ==> val_eq((#[trigger] a0[i]).eid(), b0[i], true)
  dec: a0.len() - k
  bstart: proof { if k < a0.len() { assert(a0.skip(k)[0] == a0[k]); assert(a0.skip(k).drop_first() =~= a0.skip(k + 1)); } if k < b0.len() { assert(b0.skip(k)[0] == b0[k]); assert(b0.skip(k).drop_first() =~= b0.skip(k + 1)); } k = k + 1; }
closure 0
  params: x: &T
  ret: q: bool
  requires: true
  ensures: x.eq_rel(b, q)
