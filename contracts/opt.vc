# ---- the dependency orx-concurrent-option: the element's state machine, extracted from its sources
@fn State::new
  props: C01
  args: state
  requires: is_state(state)
  ensures: quiet($o, $n), r is None <==> state == NONE, r is Some <==> state == SOME

@fn Handle::spin_get
  props: C05 C08
  args: state initial_state success_state
  attr: #[verifier::exec_allows_no_decreases_clause]
  requires: can_lock($o, state.eid()), initial_state == SOME || initial_state == NONE, success_state == SOME
  ensures: r matches Some(h) ==> h.state.eid() == state.eid() && h.success_state == success_state && lock_post($o, $n, state.eid())
  ensures: r is Some && initial_state == SOME ==> $n.known.contains(state.eid())
  ensures: r is Some && initial_state == NONE ==> !$o.known.contains(state.eid())
  ensures: r is None ==> quiet($o, $n)
  ensures: $o.known.contains(state.eid()) && initial_state == SOME ==> r is Some
loop 0 L
  inv: quiet($o, $w), can_lock($o, state.eid()), initial_state == SOME || initial_state == NONE, success_state == SOME

@fn Handle::drop
  props: C05 C08
  args:
  requires: $o.held.len() > 0, $o.held.last() == self.state.eid(), self.success_state == SOME, $o.known.contains(self.state.eid())
  ensures: still($o, $n), $n.held == $o.held.drop_last()

@fn MutHandle::spin_get
  props: C05 C08
  args: option initial_state success_state
  attr: #[verifier::exec_allows_no_decreases_clause]
  requires: can_lock($o, option.eid()), initial_state == SOME, success_state == SOME
  ensures: r matches Some(h) ==> h.eid() == option.eid() && h.state.eid() == option.eid() && h.success_state == success_state && lock_post($o, $n, option.eid()) && $n.known.contains(option.eid())
  ensures: r is None ==> quiet($o, $n)
  ensures: $o.known.contains(option.eid()) ==> r is Some
loop 0 L
  inv: quiet($o, $w), can_lock($o, option.eid()), initial_state == SOME, success_state == SOME

@fn MutHandle::get_mut
  props: C05 C08
  args:
  requires: may_write($o, self.eid())
  ensures: $n == $o, r.eid() == self.eid()

@fn MutHandle::drop
  props: C05 C08
  args:
  requires: $o.held.len() > 0, $o.held.last() == self.state.eid(), self.success_state == SOME, $o.known.contains(self.state.eid())
  ensures: still($o, $n), $n.held == $o.held.drop_last()

@fn ConcurrentOption::spin_get_handle
  props: C05 C08
  args: initial_state success_state
  requires: can_lock($o, self.eid()), initial_state == SOME || initial_state == NONE, success_state == SOME
  ensures: r matches Some(h) ==> h.state.eid() == self.eid() && h.success_state == success_state && lock_post($o, $n, self.eid())
  ensures: r is Some && initial_state == SOME ==> $n.known.contains(self.eid())
  ensures: r is Some && initial_state == NONE ==> !$o.known.contains(self.eid())
  ensures: r is None ==> quiet($o, $n)
  ensures: $o.known.contains(self.eid()) && initial_state == SOME ==> r is Some

@fn ConcurrentOption::mut_handle
  props: C05 C08
  args: initial_state success_state
  requires: can_lock($o, self.eid()), initial_state == SOME, success_state == SOME
  ensures: $o.known.contains(self.eid()) ==> r is Some
  ensures: r is None ==> quiet($o, $n)
  ensures: r matches Some(h) ==> h.eid() == self.eid() && still($o, $n) && $n.held == $o.held.push(self.eid()) && $n.known.contains(self.eid())

@fn ConcurrentOption::none
  props: C01
  args:
  ensures: quiet($o, $n), r.oval() is None

@fn ConcurrentOption::initialize_unchecked
  props: C01
  args: value
  requires: may_init($o, self.eid())
  ensures: init_post($o, $n, self.eid(), enc(value))

@fn ConcurrentOption::state
  props: C03
  args: order
  ensures: quiet($o, $n), $o.known.contains(self.eid()) ==> !(r is None)
  ensures: !(r is None) && self.eid().k < ($o.lbr)(self.eid().v) ==> $n.known.contains(self.eid())

# may be false for an element with a value, while another access holds it
@fn ConcurrentOption::is_some_with_order
  props: C03
  args: order
  ensures: quiet($o, $n)
  ensures: r && self.eid().k < ($o.lbr)(self.eid().v) ==> $n.known.contains(self.eid())

@fn ConcurrentOption::is_none_with_order
  props: C03
  args: order
  ensures: quiet($o, $n)
  ensures: !r && self.eid().k < ($o.lbr)(self.eid().v) ==> $n.known.contains(self.eid())

@fn ConcurrentOption::is_some
  props: C03
  args:
  ensures: quiet($o, $n)
  ensures: r && self.eid().k < ($o.lbr)(self.eid().v) ==> $n.known.contains(self.eid())

@fn ConcurrentOption::is_none
  props: C03
  args:
  ensures: quiet($o, $n)
  ensures: !r && self.eid().k < ($o.lbr)(self.eid().v) ==> $n.known.contains(self.eid())

# ---- accesses that are exclusive for their duration
@fn ConcurrentOption::clone_into_option
  props: C05
  args:
  requires: user_ok($o), can_lock($o, self.eid())
  ensures: quiet($o, $n), $o.known.contains(self.eid()) ==> r is Some
  ensures: r matches Some(v) ==> exists|u: &T| #[trigger] saw(self.eid(), *u) && u.clone_rel(v)

@fn ConcurrentOption::map
  props: C05
  args: f
  requires: user_ok($o), can_lock($o, self.eid()), forall|u: &T| saw(self.eid(), *u) ==> #[trigger] f.requires((u,))
  ensures: quiet($o, $n), $o.known.contains(self.eid()) ==> r is Some
  ensures: r matches Some(x) ==> exists|u: &T| #[trigger] saw(self.eid(), *u) && f.ensures((u,), x)

@fn ConcurrentOption::is_some_and
  props: C05
  args: f
  requires: user_ok($o), can_lock($o, self.eid()), forall|u: &T| saw(self.eid(), *u) ==> #[trigger] f.requires((u,))
  ensures: quiet($o, $n)
  ensures: $o.known.contains(self.eid()) || r ==> exists|u: &T| #[trigger] saw(self.eid(), *u) && f.ensures((u,), r)

@fn ConcurrentOption::replace
  props: C05
  args: value
  attr: #[verifier::exec_allows_no_decreases_clause]
  requires: can_lock($o, self.eid()), $o.known.contains(self.eid())
  ensures: r matches Some(x) && saw(self.eid(), x) && effect($o, $n, self.eid(), Ev::Rep(self.eid(), enc(value), enc(x)))
loop 0 L
  inv: quiet($o, $w), can_lock($o, self.eid()), $o.known.contains(self.eid())

@fn ConcurrentOption::set_some
  props: C05
  args: value
  attr: #[verifier::exec_allows_no_decreases_clause]
  requires: can_lock($o, self.eid()), $o.known.contains(self.eid())
  ensures: r, effect($o, $n, self.eid(), Ev::Set(self.eid(), enc(value)))
loop 0 L
  inv: quiet($o, $w), can_lock($o, self.eid()), $o.known.contains(self.eid())

@fn ConcurrentOption::update_if_some
  props: C05
  args: f
  requires: user_ok($o), can_lock($o, self.eid())
  ensures: $o.known.contains(self.eid()) ==> r
  ensures: r ==> effect($o, $n, self.eid(), Ev::Upd(self.eid(), enc(f)))
  ensures: !r ==> quiet($o, $n)

# ---- unsynchronised accesses: Some only for an initialised element; with acquire semantics the value
# written by the initialiser is visible; None is possible while another access holds it
@fn ConcurrentOption::get_raw_with_order
  props: C14
  args: order
  requires: acq(order)
  ensures: quiet($o, $n), r matches Some(p) ==> ident(p) == self.eid()
  ensures: r is Some && self.eid().k < ($o.lbr)(self.eid().v) ==> $n.known.contains(self.eid())
  ensures: $o.known.contains(self.eid()) && uncontended(self.eid()) ==> r is Some

@fn ConcurrentOption::get_raw_mut_with_order
  props: C14
  args: order
  requires: acq(order)
  ensures: quiet($o, $n), r matches Some(p) ==> ident(p) == self.eid()
  ensures: r is Some && self.eid().k < ($o.lbr)(self.eid().v) ==> $n.known.contains(self.eid())
  ensures: $o.known.contains(self.eid()) && uncontended(self.eid()) ==> r is Some

@fn ConcurrentOption::as_ref_with_order
  props: C14
  args: order
  requires: acq(order)
  ensures: quiet($o, $n), r matches Some(p) ==> ident(p) == self.eid()
  ensures: r is Some && self.eid().k < ($o.lbr)(self.eid().v) ==> $n.known.contains(self.eid())
  ensures: $o.known.contains(self.eid()) && uncontended(self.eid()) ==> r is Some

@fn ConcurrentOption::get_raw
  props: C14
  args:
  requires: can_lock($o, self.eid())
  ensures: quiet($o, $n), r matches Some(p) ==> ident(p) == self.eid()
  ensures: r is Some ==> $n.known.contains(self.eid())
  ensures: $o.known.contains(self.eid()) ==> r is Some

@fn ConcurrentOption::get_raw_mut
  props: C14
  args:
  requires: can_lock($o, self.eid())
  ensures: quiet($o, $n), r matches Some(p) ==> ident(p) == self.eid()
  ensures: r is Some ==> $n.known.contains(self.eid())
  ensures: $o.known.contains(self.eid()) ==> r is Some

@fn ConcurrentOption::as_ref
  props: C14
  args:
  requires: can_lock($o, self.eid())
  ensures: quiet($o, $n), r matches Some(p) ==> ident(p) == self.eid()
  ensures: r is Some ==> $n.known.contains(self.eid())
  ensures: $o.known.contains(self.eid()) ==> r is Some

# takes the value out under exclusive access (in place)
@fn ConcurrentOption::exclusive_take
  props: C13
  args:
  requires: $o.excl.contains(self.eid().v), !$o.held.contains(self.eid())
  end: proof { assert($w.known =~= $o.known.remove(self.eid())); }
  ensures: take_post($o, $n, self.eid(), oenc(r))

# the value, if any, is dropped, once
@fn ConcurrentOption::drop
  props: C12
  args:
  requires: $o.excl.contains(self.eid().v), !$o.held.contains(self.eid())
  end: proof { assert($w.known =~= $o.known.remove(self.eid())); }
  ensures: take_post($o, $n, self.eid(), ($o.xval)(self.eid()))
