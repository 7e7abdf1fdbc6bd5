@fn ConcurrentVec::len_reserved
  props: C01 C03
  args:
  ensures: r.ctr() == Ctr::Res(self.vid()), quiet($o, $n)

@fn ConcurrentVec::len_written
  props: C03
  args:
  ensures: r.ctr() == Ctr::Wri(self.vid()), quiet($o, $n)

@fn ConcurrentVec::mut_handle
  props: C08
  args: i initial_state success_state
  requires: user_ok($o), wri_ok($o), can_lock($o, eid(self.vid(), i as int)), initial_state == SOME, success_state == SOME
  ensures: all_known($o, self.vid(), 0, i + 1) ==> r is Some
  ensures: r is None ==> quiet($o, $n)
  ensures: r matches Some(h) ==> h.eid() == eid(self.vid(), i as int) && still($o, $n)
    && $n.held == $o.held.push(eid(self.vid(), i as int))
