@fn ConcurrentVec::push
  props: C01 C02
  args: value
  requires: idle($o)
  ensures: kn($o, $n), $n.held == $o.held
  ensures[C02]: $n.owned =~= $o.owned, $n.duty =~= $o.duty, r < ($n.mcap)(self.vid())
  ensures: !$o.known.contains(eid(self.vid(), r as int)), $n.known.contains(eid(self.vid(), r as int))
  ensures: $n.log == $o.log.push(Ev::Init(eid(self.vid(), r as int), enc(value)))
  ensures[C12]: xsame_but($o, $n, self.vid())
  ensures[C12]: $o.excl.contains(self.vid()) ==> grown($o, $n, self.vid(), seq![value]) && r == ($o.xres)(self.vid())
script
closure 0
  params: i: usize
  ret: q: T
  requires: true
  ensures: q == value

@fn ConcurrentVec::push_for_idx
  props: C01 C02
  args: f
  requires: idle($o)
  requires: forall|i: usize| #[trigger] f.requires((i,))
  ensures: kn($o, $n), $n.held == $o.held
  ensures[C02,C16]: $n.owned =~= $o.owned, $n.duty =~= $o.duty, r < ($n.mcap)(self.vid())
  ensures: !$o.known.contains(eid(self.vid(), r as int)), $n.known.contains(eid(self.vid(), r as int))
  ensures: exists|x: T| #[trigger] f.ensures((r,), x) && $n.log == $o.log.push(Ev::Init(eid(self.vid(), r as int), enc(x)))
    && ($o.excl.contains(self.vid()) ==> grown($o, $n, self.vid(), seq![x]) && r == ($o.xres)(self.vid()))
  ensures[C12]: xsame_but($o, $n, self.vid())

@fn ConcurrentVec::extend
  props: C01 C02
  args: values
  panics: values.items().len() > ($o.mcap)(self.vid())
  requires: idle($o)
  ensures: kn($o, $n), $n.held == $o.held
  ensures[C02]: $n.owned =~= $o.owned, $n.duty =~= $o.duty, r + values.items().len() <= ($n.mcap)(self.vid()) || values.items().len() == 0
  ensures: forall|k: int| r <= k < r + values.items().len() ==> !$o.known.contains(#[trigger] eid(self.vid(), k))
  ensures: all_known($n, self.vid(), r as int, r + values.items().len())
  ensures: $n.log == $o.log + inits(self.vid(), r as int, values.items())

@fn ConcurrentVec::extend_for_idx
  props: C01 C02
  args: f num_items
  panics: num_items > ($o.mcap)(self.vid()) || exists|i: usize, x: IntoIter| #[trigger] f.ensures((i,), x) && x.items().len() != num_items
  requires: idle($o)
  requires: forall|i: usize| #[trigger] f.requires((i,))
  ensures: kn($o, $n), $n.held == $o.held
  ensures[C02,C16]: $n.owned =~= $o.owned, $n.duty =~= $o.duty, r + num_items <= ($n.mcap)(self.vid()) || num_items == 0
  ensures: forall|k: int| r <= k < r + num_items ==> !$o.known.contains(#[trigger] eid(self.vid(), k))
  ensures: all_known($n, self.vid(), r as int, r + num_items)
  ensures: exists|x: IntoIter| #[trigger] f.ensures((r,), x) && x.items().len() == num_items && $n.log == $o.log + inits(self.vid(), r as int, x.items())
loop 0 F
  ens: done == num_items, ext_inv($o, $w, self.vid(), begin_idx as int, num_items as int, done, items)
  before: let ghost fl = flat($s); let ghost mut done: int = 0; let ghost items = values.seq();
    proof { assert($s.skip(0) =~= $s); assert(fl.skip(0) =~= fl); assert(items.skip(0) =~= items); assert(items.take(0) =~= Seq::empty()); assert($b.log =~= $o.log + inits::<T>(self.vid(), begin_idx as int, items.take(0))); }
  inv: idle($o), 0 <= done <= num_items, fl.len() == num_items, begin_idx + num_items <= usize::MAX || num_items == 0
  inv: flat($s.skip($k)) == fl.skip(done)
  inv: forall|j: int| 0 <= j < num_items ==> (#[trigger] fl[j]).eid() == eid(self.vid(), begin_idx + j)
  inv: ext_inv($o, $w, self.vid(), begin_idx as int, num_items as int, done, items)
  inv: items.len() < num_items ==> may_panic, done <= items.len(), values.seq() == items.skip(done)
  bstart: let ghost base = done;
    proof { lem_flat_skip($s, $k - 1); assert($s.skip($k - 1)[0] == $s[$k - 1]); assert(fl.skip(base).len() == __s0_0[__n0_0 - 1]@.len() + flat($s.skip($k)).len()); }
  bend: proof { assert(fl.skip(done) =~= flat($s.skip($k))) by { assert(fl.skip(base).skip(__s0_0[__n0_0 - 1]@.len() as int) =~= fl.skip(done)); assert((__s0_0[__n0_0 - 1]@ + flat($s.skip($k))).skip(__s0_0[__n0_0 - 1]@.len() as int) =~= flat($s.skip($k))); } }
loop 1 F
  inv: idle($o), 0 <= base, done == base + $k, base + __s0_0[__n0_0 - 1]@.len() <= num_items, fl.len() == num_items, begin_idx + num_items <= usize::MAX || num_items == 0
  inv: $s.len() == __s0_0[__n0_0 - 1]@.len(), forall|j: int| 0 <= j < $s.len() ==> *(#[trigger] $s[j]) == __s0_0[__n0_0 - 1]@[j]
  inv: fl.skip(base) == __s0_0[__n0_0 - 1]@ + rest
  inv: forall|j: int| 0 <= j < num_items ==> (#[trigger] fl[j]).eid() == eid(self.vid(), begin_idx + j)
  inv: ext_inv($o, $w, self.vid(), begin_idx as int, num_items as int, done, items)
  inv: items.len() < num_items ==> may_panic, done <= items.len(), values.seq() == items.skip(done)
  before: let ghost rest = flat(__s0_0.skip(__n0_0));
  bstart: proof { assert(__s0_0[__n0_0 - 1]@[$k - 1] == (__s0_0[__n0_0 - 1]@ + rest)[$k - 1]); assert(fl.skip(base)[$k - 1] == fl[base + $k - 1]); assert($s[$k - 1].eid() == eid(self.vid(), begin_idx + done)); }
    let ghost w0 = __w@;
  bend: proof { lem_ext_step($o, w0, $w, self.vid(), begin_idx as int, num_items as int, done, items); assert(items.skip(done).drop_first() =~= items.skip(done + 1)); done = done + 1; }

@fn ConcurrentVec::extend_n_items
  props: C01 C02
  args: values num_items
  panics: num_items > ($o.mcap)(self.vid()) || values.items().len() < num_items
  requires: idle($o)
  ensures: kn($o, $n), $n.held == $o.held
  ensures[C02]: $n.owned =~= $o.owned, $n.duty =~= $o.duty, r + num_items <= ($n.mcap)(self.vid()) || num_items == 0
  ensures: forall|k: int| r <= k < r + num_items ==> !$o.known.contains(#[trigger] eid(self.vid(), k))
  ensures: all_known($n, self.vid(), r as int, r + num_items)
  ensures: num_items <= values.items().len(), $n.log == $o.log + inits(self.vid(), r as int, values.items().take(num_items as int))
  ensures[C12]: xsame_but($o, $n, self.vid())
  ensures[C12]: $o.excl.contains(self.vid()) ==> grown($o, $n, self.vid(), values.items().take(num_items as int)) && r == ($o.xres)(self.vid())
loop 0 F
  ens: done == num_items, ext_inv($o, $w, self.vid(), begin_idx as int, num_items as int, done, items)
  before: let ghost fl = flat($s); let ghost mut done: int = 0; let ghost items = values.seq();
    proof { assert($s.skip(0) =~= $s); assert(fl.skip(0) =~= fl); assert(items.skip(0) =~= items); assert(items.take(0) =~= Seq::empty()); assert($b.log =~= $o.log + inits::<T>(self.vid(), begin_idx as int, items.take(0))); }
  inv: idle($o), 0 <= done <= num_items, fl.len() == num_items, begin_idx + num_items <= usize::MAX || num_items == 0
  inv: flat($s.skip($k)) == fl.skip(done)
  inv: forall|j: int| 0 <= j < num_items ==> (#[trigger] fl[j]).eid() == eid(self.vid(), begin_idx + j)
  inv: ext_inv($o, $w, self.vid(), begin_idx as int, num_items as int, done, items)
  inv: items.len() < num_items ==> may_panic, done <= items.len(), values.seq() == items.skip(done)
  bstart: let ghost base = done;
    proof { lem_flat_skip($s, $k - 1); assert($s.skip($k - 1)[0] == $s[$k - 1]); assert(fl.skip(base).len() == __s0_0[__n0_0 - 1]@.len() + flat($s.skip($k)).len()); }
  bend: proof { assert(fl.skip(done) =~= flat($s.skip($k))) by { assert(fl.skip(base).skip(__s0_0[__n0_0 - 1]@.len() as int) =~= fl.skip(done)); assert((__s0_0[__n0_0 - 1]@ + flat($s.skip($k))).skip(__s0_0[__n0_0 - 1]@.len() as int) =~= flat($s.skip($k))); } }
loop 1 F
  inv: idle($o), 0 <= base, done == base + $k, base + __s0_0[__n0_0 - 1]@.len() <= num_items, fl.len() == num_items, begin_idx + num_items <= usize::MAX || num_items == 0
  inv: $s.len() == __s0_0[__n0_0 - 1]@.len(), forall|j: int| 0 <= j < $s.len() ==> *(#[trigger] $s[j]) == __s0_0[__n0_0 - 1]@[j]
  inv: fl.skip(base) == __s0_0[__n0_0 - 1]@ + rest
  inv: forall|j: int| 0 <= j < num_items ==> (#[trigger] fl[j]).eid() == eid(self.vid(), begin_idx + j)
  inv: ext_inv($o, $w, self.vid(), begin_idx as int, num_items as int, done, items)
  inv: items.len() < num_items ==> may_panic, done <= items.len(), values.seq() == items.skip(done)
  before: let ghost rest = flat(__s0_0.skip(__n0_0));
  bstart: proof { assert(__s0_0[__n0_0 - 1]@[$k - 1] == (__s0_0[__n0_0 - 1]@ + rest)[$k - 1]); assert(fl.skip(base)[$k - 1] == fl[base + $k - 1]); assert($s[$k - 1].eid() == eid(self.vid(), begin_idx + done)); }
    let ghost w0 = __w@;
  bend: proof { lem_ext_step($o, w0, $w, self.vid(), begin_idx as int, num_items as int, done, items); assert(items.skip(done).drop_first() =~= items.skip(done + 1)); done = done + 1; }
