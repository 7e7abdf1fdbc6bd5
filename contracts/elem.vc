# ---- ConcurrentElement: every method is exactly one exclusive access of one element
@fn From<ConcurrentOption<T>> for ConcurrentElement::from
  props: C12
  args: value
  ensures: r.0 == value, quiet($o, $n)

@fn ConcurrentElement::cloned
  props: C05
  args:
  requires: elem_ok($o, self.eid())
  ensures: quiet($o, $n)
  ensures: cloned_of(self.eid(), r)

@fn ConcurrentElement::copied
  props: C05
  args:
  requires: elem_ok($o, self.eid())
  ensures: quiet($o, $n)
  ensures: cloned_of(self.eid(), r)

@fn ConcurrentElement::map
  props: C05
  args: f
  requires: elem_ok($o, self.eid())
  requires: forall|u: &T| saw(self.eid(), *u) ==> #[trigger] f.requires((u,))
  ensures: quiet($o, $n)
  ensures: mapped_of(f, self.eid(), r)

@fn ConcurrentElement::addr
  props: C08 C11
  args:
  trusted: reference-to-integer cast is outside the verifier's language; assumed to be the (injective) address
  ensures: r == addr(self.eid()), quiet($o, $n)

@fn ConcurrentElement::replace
  props: C05
  args: value
  requires: elem_ok($o, self.eid())
  ensures: saw(self.eid(), r)
  ensures: effect($o, $n, self.eid(), Ev::Rep(self.eid(), enc(value), enc(r)))

@fn ConcurrentElement::set
  props: C05
  args: value
  requires: elem_ok($o, self.eid())
  ensures: puts($n.log.last(), self.eid(), enc(value)) && effect($o, $n, self.eid(), $n.log.last())

@fn ConcurrentElement::update
  props: C05
  args: f
  requires: elem_ok($o, self.eid())
  ensures: effect($o, $n, self.eid(), Ev::Upd(self.eid(), enc(f)))
