@fn ConcurrentVec::clear
  props: C13
  args:
  locals: len
  requires: idle($o), $o.excl.contains(old(self).vid()), none_owned($o, old(self).vid())
  ensures: final(self).vid() == old(self).vid()
  ensures: $n.excl == $o.excl, $n.owned == $o.owned, $n.duty == $o.duty, $n.held == $o.held, $n.mcap == $o.mcap, ($n.lbc)(old(self).vid()) >= ($o.lbc)(old(self).vid())
  ensures: ($n.xres)(final(self).vid()) == 0, ($n.xwri)(final(self).vid()) == 0
  ensures: wri_ok($n)
  ensures: forall|e: Eid| e.v == old(self).vid() ==> #[trigger] ($n.xval)(e) is None
  ensures: forall|e: Eid| $o.excl.contains(e.v) && e.v != old(self).vid() ==> #[trigger] ($n.xval)(e) == ($o.xval)(e)
  ensures: exists|k: int| k <= ($o.xres)(old(self).vid()) && (k == ($o.xres)(old(self).vid()) || k >= ($o.lbc)(old(self).vid())) && $n.log == $o.log + #[trigger] takes($o.xval, old(self).vid(), k)
  end: proof { assert(($w.xval)(eid(self.vid(), 0)) is None); }
loop 0 F
  inv: forall|u: int| $w.excl.contains(u) && u != old(self).vid() ==> all_known($w, u, 0, #[trigger] ($w.xwri)(u))
  inv: user_ok($w), $w.held.len() == 0, $o.excl.contains(old(self).vid()), elems_of($s, old(self).vid(), 0)
  inv: $s.len() == ($o.xres)(old(self).vid()) || $s.len() >= ($w.lbc)(old(self).vid())
  inv: $s.len() <= ($o.xres)(old(self).vid()), ($w.lbc)(old(self).vid()) >= ($o.lbc)(old(self).vid())
  inv: $w.excl == $o.excl, $w.owned == $o.owned, $w.duty == $o.duty, $w.held == $o.held, $w.mcap == $o.mcap
  inv: ($w.xres)(old(self).vid()) == ($o.xres)(old(self).vid())
  inv: forall|e: Eid| $o.excl.contains(e.v) && (e.v != old(self).vid() || e.k >= $k) ==> #[trigger] ($w.xval)(e) == ($o.xval)(e)
  inv: forall|e: Eid| e.v == old(self).vid() && 0 <= e.k < $k ==> #[trigger] ($w.xval)(e) is None
  inv: $w.log == $o.log + takes($o.xval, old(self).vid(), $k)
  bend: proof { assert($w.log =~= $o.log + takes($o.xval, old(self).vid(), $k)); }
  before: proof { assert($w.log =~= $o.log + takes($o.xval, old(self).vid(), 0)); }

@fn ConcurrentVec::reserve_maximum_capacity
  props: C13
  args: new_maximum_capacity
  locals: len
  requires: idle($o), $o.excl.contains(old(self).vid()), none_owned($o, old(self).vid())
  ensures: wri_ok($n)
  ensures: final(self).vid() == old(self).vid()
  ensures: $n.owned == $o.owned, $n.duty == $o.duty, $n.held == $o.held, xsame_but($o, $n, old(self).vid())
  ensures: forall|e: Eid| e.v == old(self).vid() ==> #[trigger] ($n.xval)(e) == ($o.xval)(e)
  ensures: r >= new_maximum_capacity, r == ($n.mcap)(final(self).vid()), r >= ($o.mcap)(old(self).vid())
  ensures: ($n.xres)(final(self).vid()) <= ($o.xres)(old(self).vid()), ($n.xres)(final(self).vid()) == ($o.xres)(old(self).vid()) || ($n.xres)(final(self).vid()) >= ($o.lbc)(old(self).vid())
  ensures: ($n.xres)(final(self).vid()) <= ($n.lbc)(final(self).vid())

@fn ConcurrentVec::map
  props: C10
  args: f
  requires: idle($o), forall|u: &T| #[trigger] f.requires((u,))
  ensures: quiet($o, $n)
  ensures: len_ok($o, $n, self.vid(), r.seq().len() as int)
  ensures: forall|k: int| 0 <= k < r.seq().len() ==> mapped_of(f, eid(self.vid(), k), #[trigger] r.seq()[k])
closure 0
  params: elem: &ConcurrentElement<T>
  ret: c: U
  requires: elem_ok($s, elem.eid())
  ensures: mapped_of(f, elem.eid(), c)

@fn ConcurrentVec::filter
  props: C10
  args: f
  requires: idle($o), forall|u: &T| #[trigger] f.requires((u,))
  ensures: quiet($o, $n)
  ensures: filter_ok(f, $o, $n, self.vid(), r.seq())
closure 0
  params: elem: &&'a ConcurrentElement<T>
  ret: c: bool
  requires: elem_ok($s, elem.eid())
  ensures: mapped_of(f, elem.eid(), c)

@fn ConcurrentVec::fold
  props: C10
  args: init f
  requires: idle($o), forall|a: U, u: &T| #[trigger] f.requires((a, u))
  ensures: quiet($o, $n)
  ensures: exists|acc: Seq<U>| #[trigger] acc.len() > 0 && acc[0] == init && r == acc.last() && len_ok($o, $n, self.vid(), acc.len() - 1)
    && forall|k: int| 0 <= k < acc.len() - 1 && #[trigger] at(k) ==> fold_step(f, eid(self.vid(), k), acc[k], acc[k + 1])
closure 0
  params: agg: U, elem: &ConcurrentElement<T>
  ret: c: U
  requires: elem_ok($s, elem.eid())
  ensures: fold_step(f, elem.eid(), agg, c)
script
  locals: agg
loop 0 F
  before: let ghost mut acc: Seq<U> = seq![agg];
  inv: idle($w), quiet($o, $w), elems_of($s, self.vid(), 0), all_ok($w, $s), forall|a: U, u: &T| #[trigger] f.requires((a, u))
  inv: len_ok($o, $w, self.vid(), $s.len() as int)
  inv: acc.len() == $k + 1, acc[0] == init, acc.last() == agg
  inv: forall|k: int| 0 <= k < acc.len() - 1 && #[trigger] at(k) ==> fold_step(f, eid(self.vid(), k), acc[k], acc[k + 1])
  ens: acc.len() == $s.len() + 1, acc[0] == init, acc.last() == agg, quiet($o, $w), len_ok($o, $w, self.vid(), $s.len() as int)
  ens: forall|k: int| 0 <= k < acc.len() - 1 && #[trigger] at(k) ==> fold_step(f, eid(self.vid(), k), acc[k], acc[k + 1])
  bend: proof { acc = acc.push(agg); }
script

@fn ConcurrentVec::reduce
  props: C10
  args: f
  requires: idle($o), forall|a: &T, u: &T| #[trigger] f.requires((a, u))
  ensures: quiet($o, $n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && reduced(f, self.vid(), 0, n, r)

@fn ConcurrentVec::index_of
  props: C10
  args: value
  requires: idle($o), eq_total::<T>()
  ensures: quiet($o, $n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && found(self.vid(), 0, n, value, r)
closure 0
  params: e: &ConcurrentElement<T>
  ret: q: bool
  requires: elem_ok($s, e.eid())
  ensures: val_eq(e.eid(), value, q)
script
loop 0 F
  inv: len_ok($o, $w, self.vid(), $s.len() as int)
  inv: idle($w), quiet($o, $w), eq_total::<T>(), forall|k: int| 0 <= k < $s.len() ==> $w.known.contains((#[trigger] $s[k]).1.eid())
  inv: forall|k: int| 0 <= k < $s.len() ==> (#[trigger] $s[k]).0 == k && $s[k].1.eid() == eid(self.vid(), 0 + k)
  inv: forall|k: int| 0 <= k < $k && #[trigger] at(k) ==> val_eq(eid(self.vid(), 0 + k), value, false)
  ens: len_ok($o, $w, self.vid(), $s.len() as int)
  ens: quiet($o, $w)
  ens: forall|k: int| 0 <= k < $s.len() && #[trigger] at(k) ==> val_eq(eid(self.vid(), 0 + k), value, false)
script

@fn ConcurrentVec::contains
  props: C10
  args: value
  requires: idle($o), eq_total::<T>()
  ensures: quiet($o, $n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && has_eq(self.vid(), 0, n, value, r)
script
closure 0
  params: e: &ConcurrentElement<T>
  ret: q: bool
  requires: elem_ok($s, e.eid())
  ensures: val_eq(e.eid(), value, q)
script
loop 0 F
  inv: idle($w), quiet($o, $w), eq_total::<T>(), all_ok($w, $s), elems_of($s, self.vid(), 0)
  inv: forall|k: int| 0 <= k < $k && #[trigger] at(k) ==> val_eq(eid(self.vid(), 0 + k), value, false)
  ens: quiet($o, $w)
  ens: forall|k: int| 0 <= k < $s.len() && #[trigger] at(k) ==> val_eq(eid(self.vid(), 0 + k), value, false)

@fn ConcurrentVec::split_at
  props: C07
  args: mid
  panics: !all_known($o, self.vid(), 0, mid as int)
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: r.0.wf($n), r.1.wf($n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && mid <= n && r.0.is_win(self.vid(), 0, mid as int) && r.1.is_win(self.vid(), mid as int, n - mid)

@fn ConcurrentVec::split_first
  props: C07
  args:
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: all_known($o, self.vid(), 0, 1) ==> r is Some
  ensures: r matches Some(p) ==> p.0.eid() == eid(self.vid(), 0) && p.1.wf($n)
    && exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && n >= 1 && p.1.is_win(self.vid(), 1, n - 1)

@fn ConcurrentVec::split_last
  props: C07
  args:
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: all_known($o, self.vid(), 0, 1) ==> r is Some
  ensures: r matches Some(p) ==> p.1.wf($n)
    && exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && n >= 1 && p.1.is_win(self.vid(), 0, n - 1) && p.0.eid() == eid(self.vid(), n - 1)

@fn ConcurrentVec::chunks
  props: C07
  args: chunk_size
  locals: len num_slices remainder
  panics: chunk_size == 0
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && chunked(r.seq(), self.vid(), 0, n, chunk_size as int)
  start: proof { if chunk_size > 0 { lem_chunks(chunk_size as int); } }
closure 0
  params: i: usize
  ret: c: ConcurrentSlice<T, P>
  requires: i < num_slices, idle($s), all_known($s, self.vid(), 0, len as int), chunk_size > 0
  requires: num_slices == nchunks(len as int, chunk_size as int), remainder == len as int % chunk_size as int
  ensures: c.is_win(self.vid(), i * chunk_size, imin(chunk_size as int, len - i * chunk_size))
  start: proof { lem_chunk(len as int, chunk_size as int, i as int); }

@fn ConcurrentVec::to_vec
  props: C12
  args:
  locals: pinned vec
  requires: idle($o), $o.excl.contains(self.vid())
  requires: forall|k: int| 0 <= k < ($o.xres)(self.vid()) ==> ($o.xval)(#[trigger] eid(self.vid(), k)) is Some
  ensures: quiet($o, $n)
  ensures: r@.len() <= ($o.xres)(self.vid())
  ensures: r@.len() == ($o.xres)(self.vid()) || r@.len() >= ($o.lbc)(self.vid())
  ensures: forall|k: int| 0 <= k < r@.len() ==> Some(enc(#[trigger] r@[k])) == ($o.xval)(eid(self.vid(), k))
loop 0 F
  inv: idle($w), quiet($o, $w), vec@.len() == $k, $s.len() <= ($o.xres)(self.vid())
  inv: $s.len() == ($o.xres)(self.vid()) || $s.len() >= ($o.lbc)(self.vid())
  inv: forall|k: int| 0 <= k < $s.len() ==> oenc((#[trigger] $s[k]).0.oval()) == ($o.xval)(eid(self.vid(), k)) && $s[k].0.oval() is Some
  inv: forall|k: int| 0 <= k < $k ==> Some(enc(#[trigger] vec@[k])) == ($o.xval)(eid(self.vid(), k))
script
closure 0
  params: x: ConcurrentElement<T>
  ret: t: T
  requires: x.0.oval() is Some
  ensures: x.0.oval() == Some(t)
script

@fn ConcurrentVec::clone_to_vec
  props: C10
  args:
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: len_ok($o, $n, self.vid(), r@.len() as int), clones_of(r@, self.vid(), 0)
