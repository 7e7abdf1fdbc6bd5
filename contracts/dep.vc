# ---- the dependency orx-pinned-concurrent-col: the concurrent collection around the concurrent pinned vec,
# extracted from its sources with T := ConcurrentElement<T> and S := ConcurrentVecState
@fn PinnedConcurrentCol::capacity
  props: C02
  args:
  ensures: quiet($o, $n), cap_seen($o, $n, self.vid(), r as int)

@fn PinnedConcurrentCol::maximum_capacity
  props: C02
  args:
  ensures: quiet($o, $n), r == ($o.mcap)(self.vid())

@fn PinnedConcurrentCol::get
  props: C04
  args: index
  ensures: quiet($o, $n), index < ($o.lbc)(self.vid()) ==> r is Some
  ensures: r matches Some(e) ==> e.eid() == eid(self.vid(), index as int) && index < ($n.lbc)(self.vid())

@fn PinnedConcurrentCol::iter
  props: C10
  args: len
  requires: len <= ($o.lbc)(self.vid())
  ensures: quiet($o, $n), r.seq().len() == len
  ensures: forall|k: int| 0 <= k < len ==> (#[trigger] r.seq()[k]).eid() == eid(self.vid(), k)

@fn PinnedConcurrentCol::iter_over_range
  props: C10
  args: range
  requires: range_fits(range), !(range.hi() is Unbounded), hi_of(range.hi(), 0) <= ($o.lbc)(self.vid())
  requires: hi_of(range.hi(), 0) > lo_of(range.lo()) ==> lo_of(range.lo()) <= ($o.lbc)(self.vid())
  ensures: quiet($o, $n), r.seq().len() == imax(0, hi_of(range.hi(), 0) - lo_of(range.lo()))
  ensures: forall|k: int| 0 <= k < r.seq().len() ==> (#[trigger] r.seq()[k]).eid() == eid(self.vid(), lo_of(range.lo()) + k)

@fn PinnedConcurrentCol::assert_has_capacity_for
  props: C02
  args: idx
  panics: idx >= ($o.mcap)(self.vid())
  ensures: quiet($o, $n), idx < ($o.mcap)(self.vid())

@fn PinnedConcurrentCol::slices_for_n_items_at
  props: C02
  args: begin_idx num_items
  requires: begin_idx + num_items <= ($o.lbc)(self.vid())
  ensures: quiet($o, $n), flat(r.seq()).len() == num_items
  ensures: forall|k: int| 0 <= k < num_items ==> (#[trigger] flat(r.seq())[k]).eid() == eid(self.vid(), begin_idx + k)

@fn PinnedConcurrentCol::grow_to
  props: C02
  args: new_capacity
  requires: may_grow($o, self.vid(), new_capacity as int), new_capacity <= ($o.mcap)(self.vid())
  ensures: grown_post($o, $n, self.vid(), new_capacity as int)

@fn PinnedConcurrentCol::single_item_as_ref
  props: C02
  args: idx
  attr: #[verifier::exec_allows_no_decreases_clause]
  requires: $o.duty.contains(eid(self.vid(), idx as int))
  ensures: ready_post($o, $n, self.vid(), idx as int, 1), r.eid() == eid(self.vid(), idx as int)
loop 0 L
  inv: quiet($o, $w), $o.duty.contains(eid(self.vid(), idx as int)), idx < ($o.mcap)(self.vid())

@fn PinnedConcurrentCol::n_items_buffer_as_slices
  props: C02
  args: begin_idx num_items
  start: proof { if num_items > 0 { assert($o.duty.contains(eid(self.vid(), begin_idx + num_items - 1))); } }
  attr: #[verifier::loop_isolation(false)]
  attr: #[verifier::exec_allows_no_decreases_clause]
  requires: forall|k: int| begin_idx <= k < begin_idx + num_items ==> $o.duty.contains(#[trigger] eid(self.vid(), k))
  ensures: ready_post($o, $n, self.vid(), begin_idx as int, num_items as int), flat(r.seq()).len() == num_items
  ensures: forall|k: int| 0 <= k < num_items ==> (#[trigger] flat(r.seq())[k]).eid() == eid(self.vid(), begin_idx + k)
loop 0 L
  inv: quiet($o, $w), num_items > 0, begin_idx + num_items <= ($o.mcap)(self.vid()), begin_idx + num_items <= usize::MAX
  inv: forall|k: int| begin_idx <= k < begin_idx + num_items ==> $o.duty.contains(#[trigger] eid(self.vid(), k))

@fn PinnedConcurrentCol::reserve_maximum_capacity
  props: C13
  args: current_len maximum_capacity
  requires: $o.excl.contains(old(self).vid()), current_len == ($o.xres)(old(self).vid()), current_len <= ($o.lbc)(old(self).vid())
  ensures: final(self).vid() == old(self).vid()
  ensures: reserve_post($o, $n, old(self).vid(), current_len as int, maximum_capacity as int, r as int)

@fn PinnedConcurrentCol::new_from_pinned
  props: C12
  args: pinned_vec
  ensures: quiet($o, $n), r.con_pinned_vec.content() == pinned_vec.pelems(), r.con_pinned_vec.cmax() == pinned_vec.pmax()
  ensures: r.state.len_reserved.init_val() == pinned_vec.pelems().len(), r.state.len_written.init_val() == pinned_vec.pelems().len()
  ensures: forall|e: ConcurrentElement<T>| #[trigger] r.con_pinned_vec.beyond(e) ==> e.0.oval() is None

@fn PinnedConcurrentCol::state
  props: C01 C03
  args:
  start: proof { in_place(self); }
  ensures: quiet($o, $n), r.len_reserved.ctr() == Ctr::Res(self.vid()), r.len_written.ctr() == Ctr::Wri(self.vid())

@fn PinnedConcurrentCol::iter_mut
  props: C13
  args: len
  requires: len <= ($o.lbc)(old(self).vid()), $o.excl.contains(old(self).vid())
  ensures: quiet($o, $n), final(self).vid() == old(self).vid(), r.seq().len() == len
  ensures: forall|k: int| 0 <= k < len ==> (#[trigger] r.seq()[k]).eid() == eid(old(self).vid(), k)

# the collection is dropped: all of its memory is dropped, and with it every value
@fn PinnedConcurrentCol::drop
  props: C12
  args:
  requires: $o.excl.contains(old(self).vid())
  ensures: quiet($o, $n), final(self).vid() == old(self).vid()
  ensures: forall|k: int| ($o.xval)(#[trigger] eid(old(self).vid(), k)) is Some ==> 0 <= k < final(self).con_pinned_vec.dropped_len()

@fn PinnedConcurrentCol::into_inner
  props: C12
  args: pinned_vec_len
  requires: $o.excl.contains(self.vid()), pinned_vec_len <= ($o.lbc)(self.vid())
  ensures: quiet($o, $n), r.pelems().len() == pinned_vec_len
  ensures: forall|k: int| 0 <= k < pinned_vec_len ==> oenc((#[trigger] r.pelems()[k]).0.oval()) == ($o.xval)(eid(self.vid(), k))

# ---- the dependency orx-pinned-vec: limits of a range
@fn ::vec_range_limits
  props: C06 C07
  args: range vec_len
  requires: range_fits(*range), vec_len is Some
  ensures: quiet($o, $n), r@[0] == clip_lo(*range, vec_len->0 as int), r@[1] == clip_hi(*range, vec_len->0 as int)
