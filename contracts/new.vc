@fn Default for ConcurrentVec::default
  props: C12
  args:
  ensures: fresh_vec($o, $n, r.vid()), holds_vals($n, r.vid(), Seq::<T>::empty()), $n.log == $o.log
  ensures[C13]: ($n.mcap)(r.vid()) == doubling_cap(32)

@fn ConcurrentVec::new
  props: C12
  args:
  ensures: fresh_vec($o, $n, r.vid()), holds_vals($n, r.vid(), Seq::<T>::empty()), $n.log == $o.log
  ensures[C13]: ($n.mcap)(r.vid()) == doubling_cap(32)

@fn ConcurrentVec::with_doubling_growth
  props: C12
  args:
  ensures: fresh_vec($o, $n, r.vid()), holds_vals($n, r.vid(), Seq::<T>::empty()), $n.log == $o.log
  ensures[C13]: ($n.mcap)(r.vid()) == doubling_cap(32)

@fn ConcurrentVec::with_linear_growth
  props: C12 C13
  args: constant_fragment_capacity_exponent fragments_capacity
  ensures: fresh_vec($o, $n, r.vid()), holds_vals($n, r.vid(), Seq::<T>::empty()), $n.log == $o.log
  ensures: ($n.mcap)(r.vid()) == linear_cap(constant_fragment_capacity_exponent as int, fragments_capacity as int)

@fn ConcurrentVec::with_fixed_capacity
  props: C12 C13
  args: fixed_capacity
  ensures: fresh_vec($o, $n, r.vid()), holds_vals($n, r.vid(), Seq::<T>::empty()), $n.log == $o.log
  ensures: ($n.mcap)(r.vid()) == fixed_capacity

@fn From<P> for ConcurrentVec::from
  props: C12
  args: pinned_vec
  requires: forall|k: int| 0 <= k < pinned_vec.pelems().len() ==> (#[trigger] pinned_vec.pelems()[k]).0.oval() is Some
  ensures: fresh_vec($o, $n, r.vid())
  ensures: ($n.xres)(r.vid()) == pinned_vec.pelems().len()
  ensures: forall|k: int| 0 <= k < pinned_vec.pelems().len() ==> ($n.xval)(#[trigger] eid(r.vid(), k)) == oenc(pinned_vec.pelems()[k].0.oval())
  ensures: forall|k: int| k >= pinned_vec.pelems().len() ==> ($n.xval)(#[trigger] eid(r.vid(), k)) is None
  ensures[C13]: ($n.mcap)(r.vid()) == pinned_vec.pmax()
