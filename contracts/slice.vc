@fn ConcurrentSlice::new
  props: C06
  args: vec a len
  ensures: r.vec == vec, r.a == a, r.len == len, quiet($o, $n)

@fn ConcurrentSlice::idx
  props: C06
  args: i
  requires: self.a + self.len <= usize::MAX
  ensures: quiet($o, $n)
  ensures: r == (if i < self.len { Some((self.a + i) as usize) } else { None })

@fn ConcurrentSlice::len
  props: C06
  args:
  ensures: quiet($o, $n), r == self.len

@fn ConcurrentSlice::is_empty
  props: C06
  args:
  ensures: quiet($o, $n), r == (self.len == 0)

@fn ConcurrentSlice::slice
  props: C06
  args: range
  requires: idle($o), self.wf($o), range_fits(range)
  ensures: quiet($o, $n)
  ensures: r.wf($n)
  ensures: r.is_win(self.vid(), self.a + clip_lo(range, self.len as int), clip_hi(range, self.len as int) - clip_lo(range, self.len as int))

@fn ConcurrentSlice::get
  props: C06 C04
  args: i
  requires: user_ok($o), wri_ok($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r is Some <==> i < self.len
  ensures: r matches Some(e) ==> e.eid() == eid(self.vid(), self.a + i)

@fn ConcurrentSlice::get_cloned
  props: C06 C04
  args: i
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r is Some <==> i < self.len
  ensures: r matches Some(x) ==> cloned_of(eid(self.vid(), self.a + i), x)

@fn ConcurrentSlice::get_copied
  props: C06 C04
  args: i
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r is Some <==> i < self.len
  ensures: r matches Some(x) ==> cloned_of(eid(self.vid(), self.a + i), x)

@fn ConcurrentSlice::iter
  props: C06 C10
  args:
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r.seq().len() == self.len, elems_of(r.seq(), self.vid(), self.a as int)

@fn ConcurrentSlice::iter_cloned
  props: C06 C10
  args:
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r.seq().len() == self.len, clones_of(r.seq(), self.vid(), self.a as int)
closure 0
  params: elem: &ConcurrentElement<T>
  ret: c: T
  requires: elem_ok($s, elem.eid())
  ensures: cloned_of(elem.eid(), c)

@fn ConcurrentSlice::map
  props: C10
  args: f
  requires: idle($o), self.wf($o), forall|u: &T| #[trigger] f.requires((u,))
  ensures: quiet($o, $n)
  ensures: r.seq().len() == self.len
  ensures: forall|k: int| 0 <= k < r.seq().len() ==> mapped_of(f, eid(self.vid(), self.a + k), #[trigger] r.seq()[k])
closure 0
  params: elem: &ConcurrentElement<T>
  ret: c: U
  requires: elem_ok($s, elem.eid())
  ensures: mapped_of(f, elem.eid(), c)

@fn ConcurrentSlice::filter
  props: C10
  args: f
  requires: idle($o), self.wf($o), forall|u: &T| #[trigger] f.requires((u,))
  ensures: quiet($o, $n)
  ensures: filter_win(f, self.vid(), self.a as int, self.len as int, r.seq())
closure 0
  params: elem: &&ConcurrentElement<T>
  ret: c: bool
  requires: elem_ok($s, elem.eid())
  ensures: mapped_of(f, elem.eid(), c)

@fn ConcurrentSlice::fold
  props: C10
  args: init f
  requires: idle($o), self.wf($o), forall|a: U, u: &T| #[trigger] f.requires((a, u))
  ensures: quiet($o, $n)
  ensures: exists|acc: Seq<U>| #[trigger] acc.len() == self.len + 1 && acc[0] == init && r == acc.last()
    && forall|k: int| 0 <= k < acc.len() - 1 && #[trigger] at(k) ==> fold_step(f, eid(self.vid(), self.a + k), acc[k], acc[k + 1])
closure 0
  params: agg: U, elem: &ConcurrentElement<T>
  ret: c: U
  requires: elem_ok($s, elem.eid())
  ensures: fold_step(f, elem.eid(), agg, c)
script
  locals: agg
loop 0 F
  before: let ghost mut acc: Seq<U> = seq![agg];
  inv: idle($w), quiet($o, $w), elems_of($s, self.vid(), self.a as int), all_ok($w, $s), forall|a: U, u: &T| #[trigger] f.requires((a, u))
  inv: acc.len() == $k + 1, acc[0] == init, acc.last() == agg
  inv: forall|k: int| 0 <= k < acc.len() - 1 && #[trigger] at(k) ==> fold_step(f, eid(self.vid(), self.a as int + k), acc[k], acc[k + 1])
  ens: acc.len() == $s.len() + 1, acc[0] == init, acc.last() == agg, quiet($o, $w)
  ens: forall|k: int| 0 <= k < acc.len() - 1 && #[trigger] at(k) ==> fold_step(f, eid(self.vid(), self.a as int + k), acc[k], acc[k + 1])
  bend: proof { acc = acc.push(agg); }

@fn ConcurrentSlice::reduce
  props: C10
  args: f
  requires: idle($o), self.wf($o), forall|a: &T, u: &T| #[trigger] f.requires((a, u))
  ensures: quiet($o, $n)
  ensures: reduced(f, self.vid(), self.a as int, self.len as int, r)
  locals: iter agg
loop 0 F
  before: let ghost mut acc: Seq<T> = seq![agg];
  inv: idle($w), quiet($o, $w), self.wf($o), $s.len() == self.len - 1, elems_of($s, self.vid(), self.a + 1), forall|a: &T, u: &T| #[trigger] f.requires((a, u))
  inv: acc.len() == $k + 1, acc.last() == agg, cloned_of(eid(self.vid(), self.a as int), acc[0])
  inv: forall|k: int| 1 <= k < acc.len() ==> red_step(f, eid(self.vid(), self.a + k), acc[k - 1], #[trigger] acc[k])
  ens: acc.len() == self.len, acc.last() == agg, cloned_of(eid(self.vid(), self.a as int), acc[0]), quiet($o, $w)
  ens: forall|k: int| 1 <= k < acc.len() ==> red_step(f, eid(self.vid(), self.a + k), acc[k - 1], #[trigger] acc[k])
  bend: proof { acc = acc.push(agg); }
script
closure 0
  params: agg: T, elem: &ConcurrentElement<T>
  ret: q: T
  requires: elem_ok($s, elem.eid())
  ensures: red_step(f, elem.eid(), agg, q)

@fn ConcurrentSlice::swap
  props: C08
  args: i j
  requires: idle($o), self.wf($o)
  ensures: kn($o, $n), $n.excl == $o.excl, $n.owned == $o.owned, $n.duty == $o.duty, $n.held =~= $o.held
  ensures: r ==> swapped($n.log, $o.log, eid(self.vid(), self.a + i), eid(self.vid(), self.a + j))
  ensures: !r ==> quiet($o, $n)
  ensures: i >= self.len || j >= self.len ==> !r
  ensures: i < self.len && j < self.len && all_known($o, self.vid(), 0, self.a + self.len) ==> r

@fn ConcurrentSlice::fill
  props: C09
  args: value
  requires: idle($o), self.wf($o)
  ensures: kn($o, $n), $n.excl == $o.excl, $n.owned == $o.owned, $n.duty == $o.duty, $n.held == $o.held
  ensures: $n.log.len() == $o.log.len() + self.len
  ensures: forall|k: int| 0 <= k < self.len ==> is_clone_set(#[trigger] $n.log[$o.log.len() + k], eid(self.vid(), self.a + k), value)
  ensures: forall|k: int| 0 <= k < $o.log.len() ==> #[trigger] $n.log[k] == $o.log[k]
loop 0 F
  inv: idle($w), kn($o, $w), $w.excl == $o.excl, $w.owned == $o.owned, $w.duty == $o.duty, $w.held == $o.held, self.wf($o)
  inv: elems_of($s, self.vid(), self.a as int), $s.len() == self.len
  inv: $w.log.len() == $o.log.len() + $k
  inv: forall|k: int| 0 <= k < $k ==> is_clone_set(#[trigger] $w.log[$o.log.len() + k], eid(self.vid(), self.a + k), value)
  inv: forall|k: int| 0 <= k < $o.log.len() ==> #[trigger] $w.log[k] == $o.log[k]
script
loop 0 F
  inv: idle($w), kn($o, $w), $w.excl == $o.excl, $w.owned == $o.owned, $w.duty == $o.duty, $w.held == $o.held, self.wf($o), self.wf($w)
  inv: forall|k: int| 0 <= k < $s.len() ==> #[trigger] $s[k] == k, $s.len() == self.len
  inv: $w.log.len() == $o.log.len() + $k
  inv: forall|k: int| 0 <= k < $k ==> is_clone_set(#[trigger] $w.log[$o.log.len() + k], eid(self.vid(), self.a + k), value)
  inv: forall|k: int| 0 <= k < $o.log.len() ==> #[trigger] $w.log[k] == $o.log[k]

@fn ConcurrentSlice::fill_with
  props: C09
  args: value
  requires: idle($o), self.wf($o)
  requires: forall|i: usize| #[trigger] value.requires((i,))
  ensures: kn($o, $n), $n.excl == $o.excl, $n.owned == $o.owned, $n.duty == $o.duty, $n.held == $o.held
  ensures: $n.log.len() == $o.log.len() + self.len
  ensures: forall|k: int| 0 <= k < self.len ==> is_fn_set(#[trigger] $n.log[$o.log.len() + k], eid(self.vid(), self.a + k), value, k as usize)
  ensures: forall|k: int| 0 <= k < $o.log.len() ==> #[trigger] $n.log[k] == $o.log[k]
loop 0 F
  inv: idle($w), kn($o, $w), $w.excl == $o.excl, $w.owned == $o.owned, $w.duty == $o.duty, $w.held == $o.held, self.wf($o)
  inv: forall|i: usize| #[trigger] value.requires((i,)), $s.len() == self.len
  inv: forall|k: int| 0 <= k < $s.len() ==> (#[trigger] $s[k]).0 == k && $s[k].1.eid() == eid(self.vid(), self.a + k)
  inv: $w.log.len() == $o.log.len() + $k
  inv: forall|k: int| 0 <= k < $k ==> is_fn_set(#[trigger] $w.log[$o.log.len() + k], eid(self.vid(), self.a + k), value, k as usize)
  inv: forall|k: int| 0 <= k < $o.log.len() ==> #[trigger] $w.log[k] == $o.log[k]
script
  locals: i
loop 0 F
  inv: idle($w), kn($o, $w), $w.excl == $o.excl, $w.owned == $o.owned, $w.duty == $o.duty, $w.held == $o.held, self.wf($o)
  inv: forall|i: usize| #[trigger] value.requires((i,)), $s.len() == self.len
  inv: elems_of($s, self.vid(), self.a as int)
  inv: $w.log.len() == $o.log.len() + $k
  inv: forall|k: int| 0 <= k < $k ==> is_fn_set(#[trigger] $w.log[$o.log.len() + k], eid(self.vid(), self.a + k), value, k as usize)
  inv: forall|k: int| 0 <= k < $o.log.len() ==> #[trigger] $w.log[k] == $o.log[k]
  invx: i == $k
  ens: i == $s.len()
script
loop 0 F
  inv: idle($w), kn($o, $w), $w.excl == $o.excl, $w.owned == $o.owned, $w.duty == $o.duty, $w.held == $o.held, self.wf($o), self.wf($w)
  inv: forall|i: usize| #[trigger] value.requires((i,)), $s.len() == self.len
  inv: forall|k: int| 0 <= k < $s.len() ==> #[trigger] $s[k] == k
  inv: $w.log.len() == $o.log.len() + $k
  inv: forall|k: int| 0 <= k < $k ==> is_fn_set(#[trigger] $w.log[$o.log.len() + k], eid(self.vid(), self.a + k), value, k as usize)
  inv: forall|k: int| 0 <= k < $o.log.len() ==> #[trigger] $w.log[k] == $o.log[k]

@fn ConcurrentSlice::index_of
  props: C10
  args: value
  requires: idle($o), self.wf($o), eq_total::<T>()
  ensures: quiet($o, $n)
  ensures: found(self.vid(), self.a as int, self.len as int, value, r)
closure 0
  params: e: &ConcurrentElement<T>
  ret: q: bool
  requires: elem_ok($s, e.eid())
  ensures: val_eq(e.eid(), value, q)
script
loop 0 F
  inv: $s.len() == self.len, idle($w), quiet($o, $w), eq_total::<T>(), forall|k: int| 0 <= k < $s.len() ==> $w.known.contains((#[trigger] $s[k]).1.eid())
  inv: forall|k: int| 0 <= k < $s.len() ==> (#[trigger] $s[k]).0 == k && $s[k].1.eid() == eid(self.vid(), self.a as int + k)
  inv: forall|k: int| 0 <= k < $k && #[trigger] at(k) ==> val_eq(eid(self.vid(), self.a as int + k), value, false)
  ens: quiet($o, $w)
  ens: forall|k: int| 0 <= k < $s.len() && #[trigger] at(k) ==> val_eq(eid(self.vid(), self.a as int + k), value, false)

@fn ConcurrentSlice::contains
  props: C10
  args: value
  requires: idle($o), self.wf($o), eq_total::<T>()
  ensures: quiet($o, $n)
  ensures: has_eq(self.vid(), self.a as int, self.len as int, value, r)
script
closure 0
  params: e: &ConcurrentElement<T>
  ret: q: bool
  requires: elem_ok($s, e.eid())
  ensures: val_eq(e.eid(), value, q)
script
loop 0 F
  inv: idle($w), quiet($o, $w), eq_total::<T>(), all_ok($w, $s), elems_of($s, self.vid(), self.a as int)
  inv: forall|k: int| 0 <= k < $k && #[trigger] at(k) ==> val_eq(eid(self.vid(), self.a as int + k), value, false)
  ens: quiet($o, $w)
  ens: forall|k: int| 0 <= k < $s.len() && #[trigger] at(k) ==> val_eq(eid(self.vid(), self.a as int + k), value, false)

@fn ConcurrentSlice::split_at
  props: C07
  args: mid
  panics: mid > self.len
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r.0.wf($n), r.1.wf($n), mid <= self.len
  ensures: r.0.is_win(self.vid(), self.a as int, mid as int), r.1.is_win(self.vid(), self.a + mid, self.len - mid)

@fn ConcurrentSlice::split_first
  props: C07
  args:
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r is Some <==> self.len > 0
  ensures: r matches Some(p) ==> p.0.eid() == eid(self.vid(), self.a as int) && p.1.wf($n) && p.1.is_win(self.vid(), self.a + 1, self.len - 1)

@fn ConcurrentSlice::split_last
  props: C07
  args:
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r is Some <==> self.len > 0
  ensures: r matches Some(p) ==> p.0.eid() == eid(self.vid(), self.a + self.len - 1) && p.1.wf($n) && p.1.is_win(self.vid(), self.a as int, self.len - 1)

@fn ConcurrentSlice::chunks
  props: C07
  args: chunk_size
  locals: len num_slices remainder
  panics: chunk_size == 0
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: chunked(r.seq(), self.vid(), self.a as int, self.len as int, chunk_size as int)
  start: proof { if chunk_size > 0 { lem_chunks(chunk_size as int); } }
closure 0
  params: i: usize
  ret: c: ConcurrentSlice<'a, T, P>
  requires: i < num_slices, idle($s), self.wf($s), chunk_size > 0, len == self.len
  requires: num_slices == nchunks(len as int, chunk_size as int), remainder == len as int % chunk_size as int
  ensures: c.is_win(self.vid(), self.a + i * chunk_size, imin(chunk_size as int, len - i * chunk_size))
  start: proof { lem_chunk(len as int, chunk_size as int, i as int); }

@fn ConcurrentSlice::clone_to_vec
  props: C10
  args:
  locals: iter vec
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r@.len() == self.len, clones_of(r@, self.vid(), self.a as int)
loop 0 F
  inv: idle($w), quiet($o, $w), vec@ =~= $s.take($k), $s.len() == self.len, clones_of($s, self.vid(), self.a as int)
script
script
  locals: vec
loop 0 F
  inv: idle($w), quiet($o, $w), elems_of($s, self.vid(), self.a as int), all_ok($w, $s), $s.len() == self.len
  inv: vec@.len() == $k, clones_of(vec@, self.vid(), self.a as int)
