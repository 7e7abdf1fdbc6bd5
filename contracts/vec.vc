@fn ConcurrentVec::into_inner
  props: C12 C16
  args:
  locals: len
  requires: idle($o), $o.excl.contains(self.vid())
  ensures: quiet($o, $n)
  ensures: r.pelems().len() <= ($o.xres)(self.vid())
  ensures: r.pelems().len() == ($o.xres)(self.vid()) || r.pelems().len() >= ($o.lbc)(self.vid())
  ensures: forall|k: int| 0 <= k < r.pelems().len() ==> oenc((#[trigger] r.pelems()[k]).0.oval()) == ($o.xval)(eid(self.vid(), k))

@fn ConcurrentVec::reserved_len
  props: C04 C12 C13
  args:
  locals: len cap
  ensures: quiet($o, $n)
  ensures: r <= ($n.lbr)(self.vid()), r <= ($n.lbc)(self.vid())
  ensures: r >= ($o.lbr)(self.vid()) || r >= ($o.lbc)(self.vid())
  ensures: $o.excl.contains(self.vid()) ==> r <= ($o.xres)(self.vid()) && (r == ($o.xres)(self.vid()) || r >= ($n.lbc)(self.vid()))

@fn ConcurrentVec::len
  props: C03
  args:
  locals: len cap len_reserved until iter num_pushed new_len
  requires: user_ok($o), wri_ok($o)
  ensures: quiet($o, $n)
  ensures: all_known($n, self.vid(), 0, r as int)
  ensures: r <= ($n.lbr)(self.vid()), r <= ($n.lbc)(self.vid())
  ensures: forall|m: int| #[trigger] all_known($o, self.vid(), 0, m) ==> m <= r
  ensures: len_ok($o, $n, self.vid(), r as int)
  end: proof { assert forall|m: int| #[trigger] all_known($o, self.vid(), 0, m) implies m <= r by {
      if m > r { assert($o.known.contains(eid(self.vid(), m - 1))); assert($o.known.contains(eid(self.vid(), r as int))); } } if r > 0 { assert($n.known.contains(eid(self.vid(), r - 1))); } }
loop 0 F
  inv: user_ok($w), wri_ok($w), quiet($o, $w), elems_of($s, self.vid(), len as int)
  inv: $s.len() == imax(0, until - len), until <= ($w.lbr)(self.vid()), until <= ($w.lbc)(self.vid())
  inv: all_known($w, self.vid(), 0, len + num_pushed)
  invx: num_pushed == $k
  ens: num_pushed <= $s.len()
  ens: num_pushed == $s.len() || !$o.known.contains(eid(self.vid(), len + num_pushed))
  ens: quiet($o, $w), all_known($w, self.vid(), 0, len + num_pushed), len as int + num_pushed as int <= imax(len as int, until as int)
script
  locals: len cap len_reserved until iter new_len
  end: proof { assert forall|m: int| #[trigger] all_known($o, self.vid(), 0, m) implies m <= r by {
      if m > r { assert($o.known.contains(eid(self.vid(), m - 1))); assert($o.known.contains(eid(self.vid(), r as int))); } } if r > 0 { assert($n.known.contains(eid(self.vid(), r - 1))); } }
loop 0 F
  inv: user_ok($w), wri_ok($w), quiet($o, $w), elems_of($s, self.vid(), len as int)
  inv: $s.len() == imax(0, until - len), until <= ($w.lbr)(self.vid()), until <= ($w.lbc)(self.vid())
  inv: all_known($w, self.vid(), 0, new_len as int)
  invx: new_len as int == len + $k
  ens: new_len as int <= len + $s.len()
  ens: new_len as int == len + $s.len() || !$o.known.contains(eid(self.vid(), new_len as int))
  ens: quiet($o, $w), all_known($w, self.vid(), 0, new_len as int), new_len as int <= imax(len as int, until as int)

script
  locals: len cap len_reserved until iter
  end: proof { assert forall|m: int| #[trigger] all_known($o, self.vid(), 0, m) implies m <= r by {
      if m > r { assert($o.known.contains(eid(self.vid(), m - 1))); assert($o.known.contains(eid(self.vid(), r as int))); } } if r > 0 { assert($n.known.contains(eid(self.vid(), r - 1))); } }
loop 0 F
  inv: user_ok($w), wri_ok($w), quiet($o, $w), elems_of($s, self.vid(), len as int)
  inv: $s.len() == imax(0, until - len), until <= ($w.lbr)(self.vid()), until <= ($w.lbc)(self.vid())
  inv: all_known($w, self.vid(), 0, len + __cnt)
  invx: len + __cnt == len + $k
  ens: len + __cnt <= len + $s.len()
  ens: len + __cnt == len + $s.len() || !$o.known.contains(eid(self.vid(), len + __cnt))
  ens: quiet($o, $w), all_known($w, self.vid(), 0, len + __cnt), len + __cnt <= imax(len as int, until as int)

@fn ConcurrentVec::is_empty
  props: C03
  args:
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && r == (n == 0)

@fn ConcurrentVec::capacity
  props: C13 C02
  args:
  ensures: quiet($o, $n)
  ensures: cap_seen($o, $n, self.vid(), r as int)
  ensures: ($o.lbc)(self.vid()) <= r <= ($n.lbc)(self.vid())

@fn ConcurrentVec::maximum_capacity
  props: C13 C02
  args:
  ensures: quiet($o, $n)
  ensures: r == ($o.mcap)(self.vid())

@fn ConcurrentVec::slice
  props: C06
  args: range
  requires: idle($o), range_fits(range)
  ensures: quiet($o, $n)
  ensures: r.wf($n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && r.is_win(self.vid(), clip_lo(range, n), clip_hi(range, n) - clip_lo(range, n))

@fn ConcurrentVec::as_slice
  props: C06
  args:
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: r.wf($n)
  ensures: exists|n: int| #[trigger] len_ok($o, $n, self.vid(), n) && r.is_win(self.vid(), 0, n)

@fn ConcurrentVec::get
  props: C04
  args: i
  requires: user_ok($o), wri_ok($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(e) ==> e.eid() == eid(self.vid(), i as int) && all_known($n, self.vid(), 0, i + 1)
  ensures: all_known($o, self.vid(), 0, i + 1) ==> r is Some

@fn ConcurrentVec::get_cloned
  props: C04
  args: i
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(x) ==> cloned_of(eid(self.vid(), i as int), x)
  ensures: $o.known.contains(eid(self.vid(), i as int)) ==> r is Some

@fn ConcurrentVec::get_copied
  props: C04
  args: i
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(x) ==> cloned_of(eid(self.vid(), i as int), x)
  ensures: $o.known.contains(eid(self.vid(), i as int)) ==> r is Some

@fn ConcurrentVec::iter
  props: C10
  args:
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: len_ok($o, $n, self.vid(), r.seq().len() as int)
  ensures: elems_of(r.seq(), self.vid(), 0)

@fn ConcurrentVec::iter_cloned
  props: C10
  args:
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: len_ok($o, $n, self.vid(), r.seq().len() as int)
  ensures: clones_of(r.seq(), self.vid(), 0)
closure 0
  params: elem: &ConcurrentElement<T>
  ret: c: T
  requires: elem_ok($s, elem.eid())
  ensures: cloned_of(elem.eid(), c)

@fn ConcurrentVec::new_from_pinned
  props: C12
  args: pinned_vec
  requires: forall|k: int| 0 <= k < pinned_vec.pelems().len() ==> (#[trigger] pinned_vec.pelems()[k]).0.oval() is Some
  ensures: fresh_vec($o, $n, r.vid()), $n.log == $o.log
  ensures: ($n.xres)(r.vid()) == pinned_vec.pelems().len()
  ensures: ($n.mcap)(r.vid()) == pinned_vec.pmax()
  ensures: pinned_vec.pelems().len() <= ($n.lbc)(r.vid())
  ensures: forall|k: int| 0 <= k < pinned_vec.pelems().len() ==> ($n.xval)(#[trigger] eid(r.vid(), k)) == oenc(pinned_vec.pelems()[k].0.oval())
  ensures: forall|k: int| k >= pinned_vec.pelems().len() ==> ($n.xval)(#[trigger] eid(r.vid(), k)) is None
