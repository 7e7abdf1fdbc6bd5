@fn ConcurrentVec::swap
  props: C08
  args: i j
  locks: yes
  requires: idle($o)
  ensures: kn($o, $n), $n.excl == $o.excl, $n.owned == $o.owned, $n.duty == $o.duty, $n.held =~= $o.held
  ensures: r ==> swapped($n.log, $o.log, eid(self.vid(), i as int), eid(self.vid(), j as int))
  ensures: r ==> $n.known.contains(eid(self.vid(), i as int)) && $n.known.contains(eid(self.vid(), j as int))
  ensures: !r ==> quiet($o, $n)
  ensures: all_known($o, self.vid(), 0, i + 1) && all_known($o, self.vid(), 0, j + 1) ==> r

@fn ConcurrentVec::fill
  props: C09
  args: value
  requires: idle($o)
  ensures: kn($o, $n), $n.excl == $o.excl, $n.owned == $o.owned, $n.duty == $o.duty, $n.held == $o.held
  ensures: exists|m: WS, n: int| #[trigger] len_ok($o, m, self.vid(), n) && m.log == $o.log && $n.log.len() == m.log.len() + n
    && (forall|k: int| 0 <= k < n ==> is_clone_set(#[trigger] $n.log[m.log.len() + k], eid(self.vid(), k), value))
    && (forall|k: int| 0 <= k < m.log.len() ==> #[trigger] $n.log[k] == m.log[k])
loop 0 F
  inv: idle($w), kn($o, $w), kn($b, $w), $w.excl == $o.excl, $w.owned == $o.owned, $w.duty == $o.duty, $w.held == $o.held
  inv: $b.log == $o.log, len_ok($o, $b, self.vid(), $s.len() as int), elems_of($s, self.vid(), 0)
  inv: $w.log.len() == $b.log.len() + $k
  inv: forall|k: int| 0 <= k < $k ==> is_clone_set(#[trigger] $w.log[$b.log.len() + k], eid(self.vid(), k), value)
  inv: forall|k: int| 0 <= k < $b.log.len() ==> #[trigger] $w.log[k] == $b.log[k]
script

@fn ConcurrentVec::fill_with
  props: C09
  args: value
  requires: idle($o)
  requires: forall|i: usize| #[trigger] value.requires((i,))
  ensures: kn($o, $n), $n.excl == $o.excl, $n.owned == $o.owned, $n.duty == $o.duty, $n.held == $o.held
  ensures: exists|m: WS, n: int| #[trigger] len_ok($o, m, self.vid(), n) && m.log == $o.log && $n.log.len() == m.log.len() + n
    && (forall|k: int| 0 <= k < n ==> is_fn_set(#[trigger] $n.log[m.log.len() + k], eid(self.vid(), k), value, k as usize))
    && (forall|k: int| 0 <= k < m.log.len() ==> #[trigger] $n.log[k] == m.log[k])
loop 0 F
  inv: idle($w), kn($o, $w), kn($b, $w), $w.excl == $o.excl, $w.owned == $o.owned, $w.duty == $o.duty, $w.held == $o.held
  inv: $b.log == $o.log, len_ok($o, $b, self.vid(), $s.len() as int)
  inv: forall|k: int| 0 <= k < $s.len() ==> (#[trigger] $s[k]).0 == k && $s[k].1.eid() == eid(self.vid(), k)
  inv: $w.log.len() == $b.log.len() + $k, forall|i: usize| #[trigger] value.requires((i,))
  inv: forall|k: int| 0 <= k < $k ==> is_fn_set(#[trigger] $w.log[$b.log.len() + k], eid(self.vid(), k), value, k as usize)
  inv: forall|k: int| 0 <= k < $b.log.len() ==> #[trigger] $w.log[k] == $b.log[k]
script
script
  locals: i
loop 0 F
  inv: idle($w), kn($o, $w), kn($b, $w), $w.excl == $o.excl, $w.owned == $o.owned, $w.duty == $o.duty, $w.held == $o.held
  inv: $b.log == $o.log, len_ok($o, $b, self.vid(), $s.len() as int)
  inv: elems_of($s, self.vid(), 0)
  inv: $w.log.len() == $b.log.len() + $k, forall|i: usize| #[trigger] value.requires((i,))
  inv: forall|k: int| 0 <= k < $k ==> is_fn_set(#[trigger] $w.log[$b.log.len() + k], eid(self.vid(), k), value, k as usize)
  inv: forall|k: int| 0 <= k < $b.log.len() ==> #[trigger] $w.log[k] == $b.log[k]
  invx: i == $k
  ens: i == $s.len()
