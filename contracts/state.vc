# ---- the growth protocol decisions
@fn ConcurrentState<ConcurrentElement<T>> for ConcurrentVecState::fill_memory_with
  props: C02
  args:
  ensures: $n == $o, r is Some
  ensures: r matches Some(f) ==> fills_empty(f)
closure 0
  params:
  ret: e: ConcurrentElement<T>
  ensures: e.0.oval() is None
script

@fn ConcurrentState<ConcurrentElement<T>> for ConcurrentVecState::new_for_pinned_vec
  props: C12 C03
  args: pinned_vec
  ensures: r.len_reserved.init_val() == pinned_vec.pelems().len()
  ensures: r.len_written.init_val() == pinned_vec.pelems().len()
  ensures: quiet($o, $n)

@fn ConcurrentState<ConcurrentElement<T>> for ConcurrentVecState::new_for_con_pinned_vec
  props: C12 C03
  args: con len
  ensures: r.len_reserved.init_val() == len
  ensures: r.len_written.init_val() == len
  ensures: quiet($o, $n)

@fn ConcurrentState<ConcurrentElement<T>> for ConcurrentVecState::write_permit
  props: C02
  args: col idx
  requires: idx < usize::MAX
  ensures: quiet($o, $n)
  ensures: exists|cap: int| #[trigger] cap_seen($o, $n, col.vid(), cap) && permit_of(r, cap, idx as int, idx + 1)

@fn ConcurrentState<ConcurrentElement<T>> for ConcurrentVecState::write_permit_n_items
  props: C02
  args: col begin_idx num_items
  requires: num_items > 0, begin_idx + num_items <= usize::MAX
  ensures: quiet($o, $n)
  ensures: exists|cap: int| #[trigger] cap_seen($o, $n, col.vid(), cap) && permit_of(r, cap, begin_idx as int, begin_idx + num_items)

@fn ConcurrentState<ConcurrentElement<T>> for ConcurrentVecState::release_growth_handle
  props: C02
  args:
  ensures: quiet($o, $n)

@fn ConcurrentState<ConcurrentElement<T>> for ConcurrentVecState::update_after_write
  props: C02
  args: begin end
  ensures: quiet($o, $n)

@fn ConcurrentState<ConcurrentElement<T>> for ConcurrentVecState::try_get_no_gap_len
  props: C12
  args:
  ensures: quiet($o, $n)
  ensures: r is Some
  ensures: self.len_reserved.ctr() matches Ctr::Res(v) ==> ($o.lbr)(v) <= r->0 <= ($n.lbr)(v) && ($o.excl.contains(v) ==> r->0 == ($o.xres)(v))

@fn ConcurrentVecState::len
  props: C03 C12
  args:
  ensures: quiet($o, $n)
  ensures: self.len_reserved.ctr() matches Ctr::Res(v) ==> ($o.lbr)(v) <= r <= ($n.lbr)(v) && ($o.excl.contains(v) ==> r == ($o.xres)(v))
