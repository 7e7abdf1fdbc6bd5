@fn ConcurrentVec::get_raw
  props: C14
  args: i
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(p) ==> ident(p) == eid(self.vid(), i as int) && $n.known.contains(eid(self.vid(), i as int))
  ensures: $o.known.contains(eid(self.vid(), i as int)) && uncontended(eid(self.vid(), i as int)) ==> r is Some

@fn ConcurrentVec::get_ref
  props: C14
  args: i
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(p) ==> ident(p) == eid(self.vid(), i as int) && $n.known.contains(eid(self.vid(), i as int))
  ensures: $o.known.contains(eid(self.vid(), i as int)) && uncontended(eid(self.vid(), i as int)) ==> r is Some

@fn ConcurrentVec::get_raw_mut
  props: C14
  args: i
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(p) ==> ident(p) == eid(self.vid(), i as int) && $n.known.contains(eid(self.vid(), i as int))
  ensures: $o.known.contains(eid(self.vid(), i as int)) && uncontended(eid(self.vid(), i as int)) ==> r is Some

@fn ConcurrentVec::get_mut
  props: C14
  args: i
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(p) ==> ident(p) == eid(self.vid(), i as int) && $n.known.contains(eid(self.vid(), i as int))
  ensures: $o.known.contains(eid(self.vid(), i as int)) ==> r is Some

@fn ConcurrentVec::iter_ref
  props: C14
  args:
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: exists|q: Seq<Option<&T>>| r.seq() == #[trigger] opts(q) && refs_win($o, self.vid(), 0, q, false) && (q.len() >= ($o.lbr)(self.vid()) || q.len() >= ($o.lbc)(self.vid()))
closure 0
  params: x: &ConcurrentElement<T>
  ret: q: Option<&T>
  requires: true
  ensures: q matches Some(p) ==> ident(p) == x.eid()
  ensures: $s.known.contains(x.eid()) && uncontended(x.eid()) ==> q is Some

@fn ConcurrentVec::iter_mut
  props: C14
  args:
  requires: idle($o)
  ensures: quiet($o, $n)
  ensures: exists|q: Seq<Option<&mut T>>| r.seq() == #[trigger] opts(q) && refs_win($o, self.vid(), 0, q, true) && (q.len() >= ($o.lbr)(self.vid()) || q.len() >= ($o.lbc)(self.vid()))
closure 0
  params: x: &ConcurrentElement<T>
  ret: q: Option<&mut T>
  requires: true
  ensures: q matches Some(p) ==> ident(p) == x.eid()
  ensures: $s.known.contains(x.eid()) ==> q is Some

@fn ConcurrentSlice::get_raw
  props: C14
  args: i
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(p) ==> i < self.len && ident(p) == eid(self.vid(), self.a + i)
  ensures: i < self.len && uncontended(eid(self.vid(), self.a + i)) ==> r is Some

@fn ConcurrentSlice::get_ref
  props: C14
  args: i
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(p) ==> i < self.len && ident(p) == eid(self.vid(), self.a + i)
  ensures: i < self.len && uncontended(eid(self.vid(), self.a + i)) ==> r is Some

@fn ConcurrentSlice::get_raw_mut
  props: C14
  args: i
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(p) ==> i < self.len && ident(p) == eid(self.vid(), self.a + i)
  ensures: i < self.len && uncontended(eid(self.vid(), self.a + i)) ==> r is Some

@fn ConcurrentSlice::get_mut
  props: C14
  args: i
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: r matches Some(p) ==> i < self.len && ident(p) == eid(self.vid(), self.a + i)
  ensures: i < self.len ==> r is Some

@fn ConcurrentSlice::iter_ref
  props: C14
  args:
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: refs_ok($o, self.vid(), self.a as int, self.len as int, r.seq(), false)
closure 0
  params: x: &ConcurrentElement<T>
  ret: q: Option<&T>
  requires: true
  ensures: q matches Some(p) ==> ident(p) == x.eid()
  ensures: $s.known.contains(x.eid()) && uncontended(x.eid()) ==> q is Some

@fn ConcurrentSlice::iter_mut
  props: C14
  args:
  requires: idle($o), self.wf($o)
  ensures: quiet($o, $n)
  ensures: refs_ok($o, self.vid(), self.a as int, self.len as int, r.seq(), true)
closure 0
  params: x: &ConcurrentElement<T>
  ret: q: Option<&mut T>
  requires: true
  ensures: q matches Some(p) ==> ident(p) == x.eid()
  ensures: $s.known.contains(x.eid()) ==> q is Some
