//! Every operation in every state a vec can be in while growth is under way: with unwritten positions, values
//! behind them, in callbacks of growth operations, in iterators, and after a growth call that panicked.
use crate::util::*;
use orx_concurrent_vec::*;

/// what the calling thread knows about the vec: the written prefix, values behind the first gap, reserved length
pub struct St<'a> {
    pre: &'a [i64],
    behind: &'a [(usize, i64)],
    next: usize,
}
type V<P> = ConcurrentVec<Tk, P>;

macro_rules! states {
    ($cx:expr, $audit:ident) => {{
        let _ = &$cx;
        let ns: &[usize] = if cfg!(miri) { &[0, 3] } else { &[0, 1, 3, 4, 5, 11, 12] };
        let bs: &[usize] = if cfg!(miri) { &[2] } else { &[0, 1, 5, 17] };
        for &n in ns {
            for &b in bs {
                for how in 0..6 {
                    kinds!(Tk, n + b + 9, |v, k| {
                        let pre: Vec<i64> = (0..n as i64).collect();
                        v.extend(tks(pre.clone()));
                        let gap = [1, 3, 3, 3, 2, 0][how];
                        let behind: Vec<(usize, i64)> = if gap == 0 { vec![] } else { (n + gap..n + gap + b).map(|p| (p, 100 + p as i64)).collect() };
                        let next = if gap == 0 { n } else { n + gap + b };
                        {
                            let v = &v;
                            let grow = || {
                                for x in &behind {
                                    must_eq!(v.push(Tk::new(x.1)), x.0, "position of a push behind a gap");
                                }
                            };
                            // values written one after the other in front of the gap
                            let each = |q: i64, what: &str| {
                                if q == 0 {
                                    grow();
                                }
                                ctx!("{k} vec of {n} values; {what}, before its value {q} of 3; {b} values behind");
                                let pre: Vec<i64> = pre.iter().copied().chain(50..50 + q).collect();
                                $audit(v, St { pre: &pre, behind: &behind, next });
                                Tk::new(50 + q)
                            };
                            match how {
                                0 => {
                                    v.push_for_idx(|_| {
                                        grow();
                                        ctx!("{k} vec of {n} values; in the closure of push_for_idx; {b} values behind");
                                        $audit(v, St { pre: &pre, behind: &behind, next });
                                        Tk::new(50)
                                    });
                                }
                                1 => {
                                    v.extend_for_idx(|_| (0..3i32).map(|q| each(q as i64, "in the iterator of extend_for_idx")), 3);
                                }
                                2 => {
                                    v.extend_n_items((0..3i64).map(|q| each(q, "in the iterator of extend_n_items")), 3);
                                }
                                3 => {
                                    v.extend((0..3i32).map(|q| each(q as i64, "in the iterator of extend")));
                                }
                                4 => {
                                    // two growth calls of which the inner one panics for ever
                                    v.push_for_idx(|_| {
                                        must!(panics(|| v.push_for_idx(|_| panic!("x"))), "the panic was swallowed");
                                        grow();
                                        ctx!("{k} vec of {n} values; in the closure of push_for_idx, after another one panicked; {b} values behind");
                                        $audit(v, St { pre: &pre, behind: &behind, next });
                                        Tk::new(50)
                                    });
                                }
                                _ => {
                                    ctx!("{k} vec of {n} values");
                                    $audit(v, St { pre: &pre, behind: &[], next });
                                }
                            }
                        }
                        let mut all = pre.clone();
                        match how {
                            0 => all.push(50),
                            1 | 2 | 3 => all.extend([50, 51, 52]),
                            4 => all.push(50),
                            _ => {}
                        }
                        let rest = how != 4;
                        if rest {
                            all.extend(behind.iter().map(|x| x.1));
                        }
                        ctx!("{k} vec of {n} values; state {how} is over; {b} values behind");
                        let left: &[(usize, i64)] = if rest { &[] } else { &behind };
                        $audit(&v, St { pre: &all, behind: left, next });
                    });
                    must_eq!(live(), 0, "number of values alive at the end");
                }
            }
        }
    }};
}

fn vals<'a>(it: impl Iterator<Item = &'a ConcurrentElement<Tk>>) -> Vec<i64> {
    it.map(|e| e.map(|x| x.get())).collect()
}

// ------------------------------------------------------------------ C01, C02: growth in these states
fn grown(op: usize, c: usize, base: i64) -> Vec<i64> {
    match op {
        0 | 1 => vec![base],
        _ => (base..base + c as i64).collect(),
    }
}
/// growth inside the callbacks of growth; the positions are the next ones, values can be read back at once
pub fn c01_nested(cx: &mut Cx) {
    let m = if cfg!(miri) { 3 } else { 9 };
    let _ = &cx;
    for n in 0..m {
        for outer in 0..4 {
            for op in 0..5 {
                for c in if cfg!(miri) { [1, 4] } else { [1, 30] } {
                    kinds!(Tk, n + 4 * c + 20, |v, k| {
                        ctx!("{k} vec of {n} values, growth op {outer} in whose callbacks growth op {op} adds {c} values each time");
                        v.extend(tks(0..n as i64));
                        let v = &v;
                        let next = std::cell::Cell::new(0usize);
                        let base = std::cell::Cell::new(1000i64);
                        let exp = std::cell::RefCell::new((0..n as i64).collect::<Vec<i64>>());
                        let inner = || {
                            let b = base.get();
                            let x = grown(op, c, b);
                            base.set(b + x.len() as i64);
                            let at = next.get();
                            next.set(at + x.len());
                            let y = tks(x.clone());
                            let r = match op {
                                0 => v.push(Tk::new(x[0])),
                                1 => v.push_for_idx(|i| {
                                    must_eq!(i, at, "position given to the closure");
                                    Tk::new(x[0])
                                }),
                                2 => v.extend(y),
                                3 => v.extend_n_items(y, x.len()),
                                _ => v.extend_for_idx(
                                    |i| {
                                        must_eq!(i, at, "position given to the closure");
                                        y
                                    },
                                    x.len(),
                                ),
                            };
                            must_eq!(r, at, "position returned by the inner growth");
                            for (i, z) in x.iter().enumerate() {
                                must_eq!(v.get_cloned(at + i).map(|t| t.get()), Some(*z), "value just added at {}", at + i);
                            }
                            exp.borrow_mut().extend(x);
                        };
                        let it = || {
                            (0..3i32).map(|q| {
                                inner();
                                Tk::new(50 + q as i64)
                            })
                        };
                        let cnt = if outer == 0 { 1 } else { 3 };
                        next.set(n + cnt);
                        exp.borrow_mut().extend(50..50 + cnt as i64);
                        let r = match outer {
                            0 => v.push_for_idx(|i| {
                                must_eq!(i, n, "position given to the outer closure");
                                inner();
                                Tk::new(50)
                            }),
                            1 => v.extend(it()),
                            2 => v.extend_n_items(it(), 3),
                            _ => v.extend_for_idx(
                                |i| {
                                    must_eq!(i, n, "position given to the outer closure");
                                    inner();
                                    it()
                                },
                                3,
                            ),
                        };
                        must_eq!(r, n, "position returned by the outer growth");
                        must_eq!(content(v), *exp.borrow(), "content");
                        must_eq!(v.len(), exp.borrow().len(), "length");
                    });
                    must_eq!(live(), 0, "number of values alive at the end");
                }
            }
        }
    }
}

/// growth behind a gap does not make the gap count
pub fn c03_grow(cx: &mut Cx) {
    let m = if cfg!(miri) { 3 } else { 9 };
    let _ = &cx;
    for n in 0..m {
        for op in 0..5 {
            for c in if cfg!(miri) { [1, 4] } else { [1, 30] } {
                for asked in [false, true] {
                    kinds!(Tk, n + 4 * c + 20, |v, k| {
                        ctx!("{k} vec of {n} values, a gap, growth op {op} adds {c} values behind it, length asked before: {asked}");
                        v.extend(tks(0..n as i64));
                        if asked {
                            must_eq!(v.len(), n, "length");
                        }
                        let mut total = n + 1;
                        v.push_for_idx(|_| {
                            for round in 0..3 {
                                let x = grown(op, c, 1000 + 100 * round);
                                total += x.len();
                                let y = tks(x.clone());
                                match op {
                                    0 => v.push(Tk::new(x[0])),
                                    1 => v.push_for_idx(|_| Tk::new(x[0])),
                                    2 => v.extend(y),
                                    3 => v.extend_n_items(y, x.len()),
                                    _ => v.extend_for_idx(|_| y, x.len()),
                                };
                                if asked || round == 2 {
                                    must_eq!(v.len(), n, "length with a gap at {n}");
                                    must_eq!(v.is_empty(), n == 0, "is_empty with a gap at {n}");
                                }
                            }
                            Tk::new(7)
                        });
                        must_eq!(v.len(), total, "length when the gap is closed");
                        must!(!v.is_empty(), "is_empty when the gap is closed");
                    });
                }
            }
        }
    }
}

fn a03<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &V<P>, s: St) {
    for _ in 0..2 {
        must_eq!(v.len(), s.pre.len(), "length");
        must_eq!(v.is_empty(), s.pre.is_empty(), "is_empty");
    }
    // from within accesses to elements
    for i in 0..s.pre.len() {
        v[i].map(|_| must_eq!(v.len(), s.pre.len(), "length while element {i} is mapped"));
        v[i].update(|_| must_eq!(v.len(), s.pre.len(), "length while element {i} is updated"));
    }
    for e in v.iter() {
        e.map(|_| ());
        must_eq!(v.len(), s.pre.len(), "length while the vec is iterated");
    }
    must_eq!(v.as_slice().len(), s.pre.len(), "length of as_slice");
    must!(v.capacity() >= s.next, "capacity {} with {} reserved positions", v.capacity(), s.next);
}
pub fn c03_states(cx: &mut Cx) {
    states!(cx, a03)
}

fn a04<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &V<P>, s: St) {
    let n = s.pre.len();
    let far = [s.next + 1, v.capacity(), v.capacity() + 1, v.maximum_capacity(), usize::MAX];
    for i in (0..s.next + 3).chain(far) {
        let w = s.pre.get(i).copied();
        must_eq!(v.get(i).map(|e| e.map(|x| x.get())), w, "get({i})");
        must_eq!(v.as_slice().get(i).map(|e| e.map(|x| x.get())), w, "slice get({i})");
        must_eq!(v.as_slice().get_cloned(i).map(|x| x.get()), w, "slice get_cloned({i})");
        let b = s.behind.iter().find(|x| x.0 == i).map(|x| x.1);
        let got = v.get_cloned(i).map(|x| x.get());
        must!(got == w || (i >= n && got == b), "get_cloned({i}): got {got:?}, expected {w:?}");
        match w {
            Some(x) => {
                must_eq!(v[i].map(|y| y.get()), x, "[{i}]");
                must!(std::ptr::eq(v.get(i).unwrap(), &v[i]), "get({i}) and [{i}] are different elements");
            }
            None => {
                must!(panics(|| v[i].map(|_| ())), "[{i}] must panic");
                must!(panics(|| v.as_slice()[i].map(|_| ())), "slice [{i}] must panic");
            }
        }
    }
}
pub fn c04_states(cx: &mut Cx) {
    states!(cx, a04)
}

fn a05<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &V<P>, s: St) {
    let before = live();
    for (i, x) in s.pre.iter().enumerate() {
        must_eq!(v[i].cloned().get(), *x, "cloned");
        must_eq!(v[i].replace(Tk::new(-1)).get(), *x, "replace");
        let mut calls = 0;
        v[i].update(|y| {
            must_eq!(y.get(), -1, "value given to update");
            calls += 1;
            y.put(-2)
        });
        must_eq!(calls, 1, "calls of the update closure");
        must_eq!(v[i].map(|y| y.get()), -2, "map after update");
        v[i].set(Tk::new(*x));
        must_eq!(v[i].map(|y| y.get()), *x, "map after set");
    }
    must_eq!(live(), before, "number of values alive");
    for x in s.behind {
        must_eq!(v.get_cloned(x.0).map_or(x.1, |y| y.get()), x.1, "value behind the gap");
    }
}
pub fn c05_states(cx: &mut Cx) {
    states!(cx, a05)
}

fn a06<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &V<P>, s: St) {
    let n = s.pre.len();
    let all = |what: &str, x: &ConcurrentSlice<Tk, P>, w: &[i64]| {
        must_eq!(x.len(), w.len(), "length of {what}");
        must_eq!(x.is_empty(), w.is_empty(), "is_empty of {what}");
        must_eq!(vals(x.iter()), w, "content of {what}");
        must_eq!(x.iter_cloned().map(|y| y.get()).collect::<Vec<_>>(), w, "iter_cloned of {what}");
        for i in 0..w.len() + 3 {
            must_eq!(x.get(i).map(|e| e.map(|y| y.get())), w.get(i).copied(), "get({i}) of {what}");
            if i < w.len() {
                must_eq!(x[i].map(|y| y.get()), w[i], "[{i}] of {what}");
            }
        }
    };
    all("as_slice()", &v.as_slice(), s.pre);
    all("slice(..)", &v.slice(..), s.pre);
    all("slice(0..len())", &v.slice(0..v.len()), s.pre);
    // ends beyond the length
    for a in [0, 1, n / 2, n, n + 1, s.next] {
        for b in [n, n + 1, n + 2, s.next, s.next + 5, usize::MAX] {
            if a > b {
                continue;
            }
            let w = &s.pre[a.min(n)..n];
            let r = try_run(|| {
                let x = v.slice(a..b);
                must!(x.len() <= w.len(), "slice({a}..{b}) has {} elements", x.len());
                all(&format!("slice({a}..{b})"), &x, &w[..x.len()]);
            });
            let _ = r;
            let _ = try_run(|| {
                let p = v.as_slice();
                let x = p.slice(a..b);
                must!(x.len() <= w.len(), "as_slice().slice({a}..{b}) has {} elements", x.len());
                all(&format!("as_slice().slice({a}..{b})"), &x, &w[..x.len()]);
            });
        }
    }
    for a in 0..n.min(4) {
        for b in a..=n {
            all(&format!("slice({a}..{b})"), &v.slice(a..b), &s.pre[a..b]);
            let p = v.slice(a..b);
            for c in 0..=(b - a).min(3) {
                all(&format!("slice({a}..{b}).slice({c}..)"), &p.slice(c..), &s.pre[a + c..b]);
                all(&format!("slice({a}..{b}).slice(..{c})"), &p.slice(..c), &s.pre[a..a + c]);
            }
            // ends beyond the parent
            for (c, d) in [(0, b - a + 1), (0, n + 9), (b - a, b - a + 2), (b - a + 1, b - a + 3), (1, usize::MAX)] {
                let _ = try_run(|| {
                    let x = p.slice(c..d);
                    let w = &s.pre[(a + c).min(b)..b];
                    must!(x.len() <= w.len(), "slice({a}..{b}).slice({c}..{d}) has {} elements", x.len());
                    all(&format!("slice({a}..{b}).slice({c}..{d})"), &x, &w[..x.len()]);
                });
                let _ = try_run(|| {
                    let x = p.slice(c..=d.min(usize::MAX - 1));
                    let w = &s.pre[(a + c).min(b)..b];
                    must!(x.len() <= w.len(), "slice({a}..{b}).slice({c}..={d}) has {} elements", x.len());
                    all(&format!("slice({a}..{b}).slice({c}..={d})"), &x, &w[..x.len()]);
                });
            }
        }
    }
}
pub fn c06_states(cx: &mut Cx) {
    states!(cx, a06)
}

fn a07<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &V<P>, s: St) {
    let n = s.pre.len();
    macro_rules! both {
        ($x:expr, $w:expr) => {{
            let (x, w): (_, &[i64]) = (&$x, $w);
            for mid in (0..w.len() + 3).chain([s.next, s.next + 1]) {
                match try_run(|| {
                    let (a, b) = x.split_at(mid);
                    (vals(a.iter()), vals(b.iter()))
                }) {
                    Ok((a, b)) => {
                        must!(mid <= w.len(), "split_at({mid}) of {} elements must panic", w.len());
                        must_eq!(a, w[..mid], "left part of split_at({mid})");
                        must_eq!(b, w[mid..], "right part of split_at({mid})");
                    }
                    Err(()) => must!(mid > w.len(), "split_at({mid}) of {} elements panicked", w.len()),
                }
            }
            must_eq!(x.split_first().map(|(e, r)| (e.map(|y| y.get()), vals(r.iter()))), w.split_first().map(|(e, r)| (*e, r.to_vec())), "split_first");
            must_eq!(x.split_last().map(|(e, r)| (e.map(|y| y.get()), vals(r.iter()))), w.split_last().map(|(e, r)| (*e, r.to_vec())), "split_last");
            for c in [1, 2, 3, w.len().max(1), w.len() + 1, s.next + 1, usize::MAX] {
                must_eq!(x.chunks(c).map(|y| vals(y.iter())).collect::<Vec<_>>(), w.chunks(c).map(|y| y.to_vec()).collect::<Vec<_>>(), "chunks({c})");
                must_eq!(x.chunks(c).len(), w.len().div_ceil(c), "number of chunks({c})");
            }
        }};
    }
    both!(*v, s.pre);
    both!(v.as_slice(), s.pre);
    if n > 1 {
        both!(v.slice(1..), &s.pre[1..]);
        both!(v.slice(..n - 1), &s.pre[..n - 1]);
    }
}
pub fn c07_states(cx: &mut Cx) {
    states!(cx, a07)
}

fn a08<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &V<P>, s: St) {
    let n = s.pre.len();
    let before = live();
    let pos: Vec<usize> = (0..n + 3).chain([s.next - 1.min(s.next), s.next, usize::MAX]).collect();
    let mut w = s.pre.to_vec();
    for &i in &pos {
        for &j in &pos {
            let ok = i < n && j < n;
            must_eq!(v.swap(i, j), ok, "swap({i}, {j})");
            if ok {
                w.swap(i, j);
            }
            must_eq!(vals(v.iter()), w, "content after swap({i}, {j})");
            must_eq!(v.as_slice().swap(i, j), ok, "slice swap({i}, {j})");
            if ok {
                w.swap(i, j);
            }
        }
    }
    // while the thread itself looks at another element
    if n > 2 {
        v[1].map(|_| {
            must!(v.swap(0, 2), "swap(0, 2) in a closure that reads element 1");
            must!(v.swap(2, 0), "swap(2, 0) in a closure that reads element 1");
        });
    }
    must_eq!(vals(v.iter()), s.pre, "content at the end");
    must_eq!(live(), before, "number of values alive");
    for x in s.behind {
        must_eq!(v.get_cloned(x.0).map_or(x.1, |y| y.get()), x.1, "value behind the gap");
    }
}
pub fn c08_states(cx: &mut Cx) {
    states!(cx, a08)
}

fn a09<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &V<P>, s: St) {
    let n = s.pre.len();
    let before = live();
    let rest = |what: &str| {
        for x in s.behind {
            must_eq!(v.get_cloned(x.0).map_or(x.1, |y| y.get()), x.1, "value behind the gap after {what}");
        }
    };
    let back = || {
        for (i, x) in s.pre.iter().enumerate() {
            v[i].set(Tk::new(*x));
        }
    };
    v.fill(Tk::new(77));
    must_eq!(vals(v.iter()), vec![77; n], "content after fill");
    rest("fill");
    back();
    let mut calls = vec![];
    v.fill_with(|i| {
        calls.push(i);
        Tk::new(1000 + i as i64)
    });
    must_eq!(calls, (0..n).collect::<Vec<_>>(), "calls of the closure of fill_with");
    must_eq!(vals(v.iter()), (1000..1000 + n as i64).collect::<Vec<_>>(), "content after fill_with");
    rest("fill_with");
    back();
    for a in 0..n.min(3) {
        let s2 = v.slice(a..);
        s2.fill(Tk::new(66));
        let w: Vec<i64> = s.pre[..a].iter().copied().chain(vec![66; n - a]).collect();
        must_eq!(vals(v.iter()), w, "content after fill of slice({a}..)");
        rest("fill of a slice");
        back();
        let mut calls = vec![];
        s2.fill_with(|i| {
            calls.push(i);
            Tk::new(i as i64)
        });
        must_eq!(calls, (0..n - a).collect::<Vec<_>>(), "calls of the closure of fill_with of slice({a}..)");
        rest("fill_with of a slice");
        back();
    }
    // the closure uses the vec, including the element it computes the value for
    v.fill_with(|i| {
        must_eq!(v.len(), n, "length in the closure of fill_with");
        let old = v[i].cloned().get();
        let sum: i64 = v.iter().map(|e| e.map(|x| x.get())).sum();
        v[i].update(|x| x.put(-5));
        must!(v.swap(i, 0), "swap in the closure of fill_with");
        must!(v.swap(0, i), "swap in the closure of fill_with");
        must_eq!(v.slice(..).len(), n, "slice in the closure of fill_with");
        let _ = sum;
        Tk::new(old + 1)
    });
    must_eq!(vals(v.iter()), s.pre.iter().map(|x| x + 1).collect::<Vec<_>>(), "content after fill_with whose closure uses the vec");
    let s2 = v.as_slice();
    s2.fill_with(|i| {
        let old = s2[i].cloned().get();
        s2[i].update(|x| x.put(-5));
        v.fill(Tk::new(old));
        Tk::new(old - 1)
    });
    if n > 1 {
        must_eq!(v[n - 1].map(|x| x.get()) + 1, v[0].map(|x| x.get()), "last value after fill_with whose closure fills");
    }
    back();
    rest("fill_with whose closure uses the vec");
    must_eq!(live(), before, "number of values alive");
}
pub fn c09_states(cx: &mut Cx) {
    states!(cx, a09)
}

thread_local! { static ON_CLONE: std::cell::RefCell<Option<Box<dyn Fn()>>> = const { std::cell::RefCell::new(None) }; }
/// a value whose clone does something
struct Ck(i64);
impl Clone for Ck {
    fn clone(&self) -> Self {
        let f = ON_CLONE.with(|c| c.borrow_mut().take());
        if let Some(f) = f {
            f();
            ON_CLONE.with(|c| *c.borrow_mut() = Some(f));
        }
        Ck(self.0)
    }
}
/// fill while its values grow and use the vec
pub fn c09_hooks(cx: &mut Cx) {
    let _ = &cx;
    // the positions are filled in increasing order: whoever looks while a clone is made sees a filled prefix
    for n in 0..if cfg!(miri) { 4 } else { 12 } {
        for from in 0..=n.min(3) {
            kinds!(Ck, n + 3, |v, k| {
                ctx!("{k} vec of {n} elements, fill of {} observed by every clone of the value", if from == 0 { "the vec".to_string() } else { format!("slice({from}..)") });
                v.extend((0..n as i64).map(|_| Ck(0)).collect::<Vec<_>>());
                let s = v.slice(from..);
                {
                    // the hook is removed before the vec goes away
                    let at: *const _ = &v;
                    let seen = std::cell::Cell::new(0usize);
                    let hook: Box<dyn Fn()> = Box::new(move || {
                        let v = unsafe { &*at };
                        let c: Vec<bool> = v.iter().map(|e| e.map(|x| x.0 == 77)).collect();
                        let a = c[from..].iter().position(|x| !x).unwrap_or(n - from);
                        must!(c[from..].iter().skip(a).all(|x| !x) && c[..from].iter().all(|x| !x), "which positions are filled: {c:?}");
                        must!(a >= seen.get() || a == n - from, "filled positions became fewer: {} then {a}", seen.get());
                        seen.set(a);
                        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    });
                    let hook: Box<dyn Fn() + 'static> = unsafe { std::mem::transmute(hook) };
                    ON_CLONE.with(|c| *c.borrow_mut() = Some(hook));
                    if from == 0 {
                        v.fill(Ck(77));
                    } else {
                        s.fill(Ck(77));
                    }
                    ON_CLONE.with(|c| *c.borrow_mut() = None);
                }
                let c: Vec<i64> = v.iter().map(|e| e.map(|x| x.0)).collect();
                must_eq!(c, (0..n).map(|i| if i < from { 0 } else { 77 }).collect::<Vec<i64>>(), "content after fill");
            });
        }
    }
    for n in 0..if cfg!(miri) { 4 } else { 20 } {
        for slice in [false, true] {
            kinds!(Ck, 3 * n + 8, |v, k| {
                ctx!("{k} vec of {n} elements, fill of the {}: every clone of the value pushes a value and updates all elements", if slice { "slice" } else { "vec" });
                v.extend((0..n as i64).map(Ck).collect::<Vec<_>>());
                let s = v.as_slice();
                let pushed = std::rc::Rc::new(std::cell::Cell::new(0usize));
                {
                    // the hook is removed before the vec goes away
                    let at: *const _ = &v;
                    let p2 = pushed.clone();
                    let hook: Box<dyn Fn()> = Box::new(move || {
                        let v = unsafe { &*at };
                        if v.len() < v.maximum_capacity() && p2.get() < 2 * n + 4 {
                            v.push(Ck(-9));
                            p2.set(p2.get() + 1);
                        }
                        for e in v.iter() {
                            e.update(|x| x.0 = if x.0 == 77 || x.0 == -9 { x.0 } else { -1 });
                        }
                        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    });
                    let hook: Box<dyn Fn() + 'static> = unsafe { std::mem::transmute(hook) };
                    ON_CLONE.with(|c| *c.borrow_mut() = Some(hook));
                    if slice {
                        s.fill(Ck(77));
                    } else {
                        v.fill(Ck(77));
                    }
                    ON_CLONE.with(|c| *c.borrow_mut() = None);
                }
                let p = pushed.get();
                must!(p <= n + 1, "fill of {n} elements cloned the value {p} times");
                let c: Vec<i64> = v.iter().map(|e| e.map(|x| x.0)).collect();
                must_eq!(c, std::iter::repeat_n(77, n).chain(std::iter::repeat_n(-9, p)).collect::<Vec<_>>(), "content after fill");
                if k == "doubling" {
                    let mut calls = 0;
                    v.fill_with(|i| {
                        calls += 1;
                        if calls < 100 {
                            v.push(Ck(-8));
                        }
                        Ck(i as i64)
                    });
                    must_eq!(calls, n + p, "calls of the closure of fill_with");
                    let c: Vec<i64> = v.iter().map(|e| e.map(|x| x.0)).collect();
                    must_eq!(c, (0..(n + p) as i64).chain(std::iter::repeat_n(-8, n + p)).collect::<Vec<_>>(), "content after fill_with");
                }
            });
        }
    }
}

fn a10<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &V<P>, s: St) {
    macro_rules! all {
        ($x:expr, $w:expr) => {{
            let (x, w): (_, &[i64]) = (&$x, $w);
            must_eq!(vals(x.iter()), w, "iter");
            must_eq!(x.iter().count(), w.len(), "count of iter");
            must_eq!(x.iter_cloned().map(|y| y.get()).collect::<Vec<_>>(), w, "iter_cloned");
            must_eq!(ids(&x.clone_to_vec()), w, "clone_to_vec");
            must_eq!(x.map(|y| y.get() + 1).collect::<Vec<_>>(), w.iter().map(|y| y + 1).collect::<Vec<_>>(), "map");
            must_eq!(vals(x.filter(|y| y.get() % 2 == 0)), w.iter().copied().filter(|y| y % 2 == 0).collect::<Vec<_>>(), "filter");
            must_eq!(x.fold(String::new(), |a, y| a + &format!("{},", y.get())), w.iter().map(|y| format!("{y},")).collect::<String>(), "fold");
            must_eq!(x.reduce(|a, y| Tk::new(a.get() * 2 - y.get())).map(|y| y.get()), w.iter().copied().reduce(|a, y| a * 2 - y), "reduce");
            for y in [0, 1, 3, 50, 51, 52, 100 + w.len() as i64 + 1, 100 + s.next as i64 - 1, -1] {
                let p = w.iter().position(|z| *z == y);
                must_eq!(x.index_of(&Tk::new(y)), p, "index_of({y})");
                must_eq!(x.contains(&Tk::new(y)), p.is_some(), "contains({y})");
            }
            for y in s.behind {
                let p = w.iter().position(|z| *z == y.1);
                must_eq!(x.index_of(&Tk::new(y.1)), p, "index_of({})", y.1);
                must_eq!(x.contains(&Tk::new(y.1)), p.is_some(), "contains({})", y.1);
            }
        }};
    }
    let n = s.pre.len();
    all!(*v, s.pre);
    all!(v.as_slice(), s.pre);
    if n > 1 {
        all!(v.slice(1..), &s.pre[1..]);
        all!(v.slice(..n - 1), &s.pre[..n - 1]);
    }
}
pub fn c10_states(cx: &mut Cx) {
    states!(cx, a10)
}

fn a11<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &V<P>, s: St) {
    must_eq!(format!("{v:?}"), format!("{:?}", s.pre), "Debug of the vec");
    must_eq!(format!("{:?}", v.as_slice()), format!("{:?}", s.pre), "Debug of as_slice");
    for i in 0..s.pre.len() {
        must_eq!(format!("{:?}", v[i]), format!("{:?}", s.pre[i]), "Debug of element {i}");
        must!(v[i] == Tk::new(s.pre[i]) && v[i] != Tk::new(s.pre[i] + 1), "element {i} against values");
        for j in 0..s.pre.len().min(4) {
            must_eq!(v[i] == v[j], s.pre[i] == s.pre[j], "element {i} == element {j}");
        }
    }
}
pub fn c11_states(cx: &mut Cx) {
    states!(cx, a11);
    // comparisons are for the default storage
    for n in 0..if cfg!(miri) { 3 } else { 9 } {
        for b in [0usize, 1, 5] {
            let v: ConcurrentVec<Tk> = tks(0..n as i64).into_iter().collect();
            let w: ConcurrentVec<Tk> = tks(0..n as i64).into_iter().collect();
            let long: ConcurrentVec<Tk> = tks(0..(n + 1) as i64).into_iter().collect();
            v.push_for_idx(|_| {
                v.extend(tks((0..b as i64).map(|x| n as i64 + 1 + x)));
                ctx!("vec of {n} values, a gap, {b} values");
                let arr: Vec<Tk> = tks(0..n as i64);
                let larr: Vec<Tk> = tks(0..n as i64 + 1 + b as i64);
                must!(v == w && w == v && v == w.as_slice() && w.as_slice() == v && v.as_slice() == w && v.as_slice() == w.as_slice(), "equal vecs");
                must!(v == v && v.as_slice() == v && v == v.as_slice(), "a vec equals itself");
                must!(v == arr[..] && v.as_slice() == arr[..], "vec against array");
                must!(v != long && long != v && v.as_slice() != long.as_slice() && v != larr[..] && v.as_slice() != larr[..], "different lengths");
                Tk::new(n as i64)
            });
            let arr: Vec<Tk> = tks(0..n as i64 + 1 + b as i64);
            must!(v == arr[..], "vec against array at the end");
        }
    }
}

/// a value whose Debug writes something and then fails, or looks at the formatter
struct Df(i64, bool);
impl std::fmt::Debug for Df {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        write!(f, "<{}", self.0)?;
        if self.1 {
            return Err(std::fmt::Error);
        }
        f.write_char('>')
    }
}
/// a writer with limited space
struct Lim(String, usize);
impl std::fmt::Write for Lim {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}
/// formatting that fails: the error is passed on, and nothing is written after it
pub fn c11_fmt(cx: &mut Cx) {
    use std::fmt::Write;
    let _ = &cx;
    for n in 0..if cfg!(miri) { 4 } else { 8usize } {
        for bad in 0..=n {
            let plain: Vec<Df> = (0..n).map(|i| Df(i as i64, i == bad)).collect();
            let (mut o, mut w) = (Lim(String::new(), 1000), Lim(String::new(), 1000));
            let rw = write!(w, "{plain:?}");
            kinds!(Df, n, |v, k| {
                ctx!("{k} vec of {n} values, the Debug of value {bad} fails");
                v.extend((0..n).map(|i| Df(i as i64, i == bad)).collect::<Vec<_>>());
                let s = v.as_slice();
                for (x, what) in [(&v as &dyn std::fmt::Debug, "vec"), (&s, "slice")] {
                    o.0.clear();
                    let ro = write!(o, "{x:?}");
                    must_eq!(ro, rw, "result of formatting the {what}");
                    must_eq!(o.0, w.0, "what was written for the {what}");
                }
                for i in 0..n {
                    o.0.clear();
                    must_eq!(write!(o, "{:?}", v[i]).is_err(), i == bad, "whether formatting element {i} fails");
                }
            });
        }
        // the writer fails
        let plain: Vec<i64> = (0..n as i64).map(|x| x * 7).collect();
        let full = format!("{plain:?}");
        for lim in 0..=full.len() {
            kinds!(i64, n, |v, k| {
                ctx!("{k} vec {plain:?} formatted into a writer with space for {lim} bytes");
                v.extend(plain.clone());
                let s = v.as_slice();
                for (x, what) in [(&v as &dyn std::fmt::Debug, "vec"), (&s, "slice")] {
                    let mut o = Lim(String::new(), lim);
                    let ro = write!(o, "{x:?}");
                    must_eq!(ro.is_ok(), lim >= full.len(), "whether formatting the {what} succeeds");
                    must!(full.starts_with(&o.0), "what was written for the {what}: {}", o.0);
                }
            });
        }
    }
}

fn a14<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &V<P>, s: St) {
    let n = s.pre.len();
    let far = [s.next + 1, v.capacity(), v.capacity() + 1, v.maximum_capacity(), usize::MAX];
    for i in (0..s.next + 3).chain(far) {
        let w = s.pre.get(i).copied();
        let b = s.behind.iter().find(|x| x.0 == i).map(|x| x.1);
        let ok = |g: Option<i64>| g == w || (i >= n && g == b);
        let g = v.get_raw(i).map(|p| unsafe { (*p).get() });
        must!(ok(g), "get_raw({i}): got {g:?}, expected {w:?}");
        let g = v.get_raw_mut(i).map(|p| unsafe { (*p).get() });
        must!(ok(g), "get_raw_mut({i}): got {g:?}, expected {w:?}");
        let g = unsafe { v.get_ref(i) }.map(|p| p.get());
        must!(ok(g), "get_ref({i}): got {g:?}, expected {w:?}");
        let g = unsafe { v.get_mut(i) }.map(|p| p.get());
        must!(ok(g), "get_mut({i}): got {g:?}, expected {w:?}");
        let x = v.as_slice();
        must_eq!(x.get_raw(i).map(|p| unsafe { (*p).get() }), w, "slice get_raw({i})");
        must_eq!(x.get_raw_mut(i).map(|p| unsafe { (*p).get() }), w, "slice get_raw_mut({i})");
        must_eq!(unsafe { x.get_ref(i) }.map(|p| p.get()), w, "slice get_ref({i})");
        must_eq!(unsafe { x.get_mut(i) }.map(|p| p.get()), w, "slice get_mut({i})");
    }
    let all: Vec<i64> = s.pre.iter().copied().chain(s.behind.iter().map(|x| x.1)).collect();
    let pre = |g: Vec<i64>, what: &str| must!(g == s.pre || g == all, "{what}: got {g:?}, expected {:?}", s.pre);
    pre(unsafe { v.iter_ref() }.map(|x| x.get()).collect(), "iter_ref");
    pre(unsafe { v.iter_mut() }.map(|x| x.get()).collect(), "iter_mut");
    must_eq!(unsafe { v.as_slice().iter_ref() }.map(|x| x.get()).collect::<Vec<_>>(), s.pre, "slice iter_ref");
    must_eq!(unsafe { v.as_slice().iter_mut() }.map(|x| x.get()).collect::<Vec<_>>(), s.pre, "slice iter_mut");
}
pub fn c14_states(cx: &mut Cx) {
    states!(cx, a14)
}

// ------------------------------------------------------------------ C05: values of all sizes
macro_rules! sized {
    ($t:ty, $mk:expr) => {{
        let mk: fn(u64) -> $t = $mk;
        let name = stringify!($t);
        kinds!($t, 6, |v, k| {
            for i in 0..6u64 {
                v.push(mk(i));
            }
            for i in 0..6usize {
                ctx!("{k} vec of {name}, operations on element {i}");
                must!(v[i].cloned() == mk(i as u64), "cloned");
                let mut calls = 0;
                v[i].update(|x| {
                    calls += 1;
                    must!(*x == mk(i as u64), "value given to update");
                    *x = mk(100 + i as u64);
                });
                must_eq!(calls, 1, "calls of the update closure");
                let mut calls = 0;
                must!(
                    v[i].map(|x| {
                        calls += 1;
                        x.clone()
                    }) == mk(100 + i as u64),
                    "map"
                );
                must_eq!(calls, 1, "calls of the map closure");
                must!(v[i].replace(mk(200)) == mk(100 + i as u64), "replace");
                must!(v.get_cloned(i) == Some(mk(200)), "get_cloned after replace");
                v[i].set(mk(300));
                must!(v[i].cloned() == mk(300), "cloned after set");
                for j in i + 1..6 {
                    must!(v[j].cloned() == mk(j as u64), "element {j}");
                }
            }
            must!(v.clone_to_vec() == vec![mk(300); 6], "content");
            must!(v.to_vec() == vec![mk(300); 6], "owned content");
        });
    }};
}
pub fn c05_sizes(cx: &mut Cx) {
    let _ = &cx;
    sized!((), |_| ());
    sized!(u8, |x| x as u8);
    sized!(bool, |x| x % 2 == 0);
    sized!(u16, |x| x as u16);
    sized!(u32, |x| x as u32);
    sized!(u64, |x| x);
    sized!(f64, |x| x as f64);
    sized!(char, |x| char::from_u32(97 + x as u32).unwrap());
    sized!((u8, u64, u16), |x| (x as u8, x, x as u16));
    sized!([u64; 3], |x| [x; 3]);
    sized!([u64; 8], |x| [x; 8]);
    sized!([u64; 9], |x| [x; 9]);
    sized!([u64; 16], |x| [x; 16]);
    sized!([u8; 65], |x| [x as u8; 65]);
    sized!([u64; 512], |x| [x; 512]);
    sized!([u64; 1500], |x| [x; 1500]);
    sized!(String, |x| format!("value {x}"));
    sized!(Option<String>, |x| if x % 3 == 0 { None } else { Some(format!("value {x}")) });
    sized!(Option<u64>, |x| if x % 3 == 0 { None } else { Some(x) });
    sized!(Box<u64>, |x| Box::new(x));
    sized!(Vec<u64>, |x| vec![x; x as usize % 5]);
    sized!(Result<u8, String>, |x| if x % 2 == 0 { Ok(x as u8) } else { Err(x.to_string()) });
    sized!(std::rc::Rc<str>, |x| format!("{x}").into());
}
macro_rules! torn {
    ($cx:expr, $n:expr) => {{
        let (th, ops) = ($cx.threads(4), if cfg!(miri) { 6 } else { 300 });
        let seed = $cx.rng.next();
        let same = |x: &[u64; $n], what: &str| must!(x.iter().all(|y| *y == x[0]), "{what}: a torn value");
        kinds!([u64; $n], 2, |v, k| {
            ctx!("{k} vec of [u64; {}], {th} threads read and write 2 elements, seed {seed}", $n);
            v.extend([[0; $n]; 2]);
            let s = v.as_slice();
            par(th, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                for i in 0..ops {
                    let p = r.below(2);
                    let x = (t * ops + i + 1) as u64;
                    let w = if t < 2 { r.below(4) } else { 4 + r.below(7) };
                    match w {
                        0 => v[p].set([x; $n]),
                        1 => same(&v[p].replace([x; $n]), "replace"),
                        2 => v[p].update(|y| {
                            same(y, "update");
                            for z in y.iter_mut() {
                                *z = x;
                            }
                        }),
                        3 => {
                            v.swap(p, 1 - p);
                        }
                        4 => same(&v[p].copied(), "copied"),
                        5 => same(&v[p].cloned(), "cloned"),
                        6 => v[p].map(|y| same(y, "map")),
                        7 => same(&v.get_copied(p).unwrap_or([0; $n]), "get_copied"),
                        8 => same(&v.get_cloned(p).unwrap_or([0; $n]), "get_cloned"),
                        9 => same(&s.get_copied(p).unwrap_or([0; $n]), "get_copied of a slice"),
                        _ => v.iter_cloned().for_each(|y| same(&y, "iter_cloned")),
                    }
                }
            });
        });
    }};
}
pub fn c05_torn(cx: &mut Cx) {
    for _ in 0..cx.reps(6, 1) {
        torn!(cx, 2);
        torn!(cx, 16);
        if !cfg!(miri) {
            torn!(cx, 300);
            torn!(cx, 1500);
        }
    }
}
