//! C06, C07: slices and splits
use crate::util::*;
use orx_concurrent_vec::*;
use std::ops::Bound::{self, *};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

fn scontent<P>(s: &ConcurrentSlice<'_, usize, P>) -> Vec<usize>
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<usize>>,
{
    let c: Vec<usize> = s.iter().map(|e| e.copied()).collect();
    must_eq!(s.len(), c.len(), "length of the slice against its number of elements");
    must_eq!(s.is_empty(), c.is_empty(), "is_empty");
    for i in 0..c.len() {
        must_eq!(s.get_copied(i), Some(c[i]), "get_copied({i}) of the slice");
        must_eq!(s[i].copied(), c[i], "[{i}] of the slice");
    }
    must!(s.get(c.len()).is_none() && s.get(c.len() + 1).is_none() && s.get(usize::MAX).is_none(), "get beyond the slice");
    must_eq!(s.clone_to_vec(), c, "clone_to_vec of the slice");
    must_eq!(s.iter_cloned().collect::<Vec<_>>(), c, "iter_cloned of the slice");
    c
}
/// clipping rule: begin = lower bound, end = upper bound clipped to the length; both are clipped so
/// that begin <= end
fn clip(a: Bound<usize>, b: Bound<usize>, n: usize) -> (usize, usize) {
    let a = match a {
        Unbounded => 0,
        Included(x) => x,
        Excluded(x) => x + 1,
    };
    let b = match b {
        Unbounded => n,
        Included(x) => x + 1,
        Excluded(x) => x,
    };
    let b = b.min(n);
    (a.min(b), b)
}

pub fn c06_all(cx: &mut Cx) {
    let m = if cfg!(miri) { 4 } else { 7 };
    let _ = &cx;
    let mk = |x: usize| [Included(x), Excluded(x)];
    for n in 0..m {
        let mut bounds: Vec<Bound<usize>> = vec![Unbounded];
        for x in (0..n + 3).chain([1000, usize::MAX - 2]) {
            bounds.extend(mk(x));
        }
        for &a in &bounds {
            for &b in &bounds {
                let (lo, hi) = clip(a, b, n);
                kinds!(usize, n + 1, |v, k| {
                    ctx!("{k} vec of {n} elements, slice({a:?}, {b:?})");
                    v.extend(100..100 + n);
                    let all: Vec<usize> = (100..100 + n).collect();
                    let s = v.slice((a, b));
                    must_eq!(scontent(&s), all[lo..hi], "content of the slice");
                    // a slice does not grow with the vec
                    v.push(999);
                    must_eq!(scontent(&s), all[lo..hi], "content of the slice after a push");
                    let s2 = s.slice((a, b));
                    let (l2, h2) = clip(a, b, hi - lo);
                    must_eq!(scontent(&s2), all[lo..hi][l2..h2], "content of the slice of the slice");
                });
            }
        }
        kinds!(usize, n, |v, k| {
            ctx!("{k} vec of {n} elements, all forms of ranges");
            v.extend(100..100 + n);
            let all: Vec<usize> = (100..100 + n).collect();
            must_eq!(scontent(&v.slice(..)), all, "slice(..)");
            must_eq!(scontent(&v.as_slice()), all, "as_slice()");
            for a in 0..=n {
                must_eq!(scontent(&v.slice(a..)), all[a..], "slice({a}..)");
                must_eq!(scontent(&v.slice(..a)), all[..a], "slice(..{a})");
                must_eq!(scontent(&v.as_slice().slice(a..)), all[a..], "as_slice().slice({a}..)");
                must_eq!(scontent(&v.as_slice().slice(..a)), all[..a], "as_slice().slice(..{a})");
                for b in a..=n {
                    must_eq!(scontent(&v.slice(a..b)), all[a..b], "slice({a}..{b})");
                    if b < n {
                        must_eq!(scontent(&v.slice(a..=b)), all[a..=b], "slice({a}..={b})");
                    }
                    let s = v.slice(a..b);
                    for c in 0..=b - a {
                        for d in c..=b - a {
                            let t = s.slice(c..d);
                            must_eq!(scontent(&t), all[a..b][c..d], "slice({a}..{b}).slice({c}..{d})");
                            let u = t.slice(..);
                            must_eq!(scontent(&u), all[a..b][c..d], "slice({a}..{b}).slice({c}..{d}).slice(..)");
                            if d - c > 1 {
                                let w = t.slice(1..);
                                must_eq!(scontent(&w), all[a..b][c..d][1..], "slice({a}..{b}).slice({c}..{d}).slice(1..)");
                            }
                        }
                    }
                }
            }
        });
    }
    // larger, across several fragments, random nesting
    for _ in 0..cx.reps(60, 1) {
        let n = 20 + cx.rng.below(120);
        let seed = cx.rng.next();
        kinds!(usize, n, |v, k| {
            let mut r = Rng::new(seed);
            ctx!("{k} vec of {n} elements, nested slices, seed {seed}");
            v.extend(100..100 + n);
            let all: Vec<usize> = (100..100 + n).collect();
            for _ in 0..5 {
                let (mut lo, mut hi) = (0, n);
                let s0 = v.as_slice();
                let mut stack = vec![];
                for _ in 0..4 {
                    let len = hi - lo;
                    let a = r.below(len / 2 + 1);
                    let b = (a + r.below(len + 2)).min(len);
                    stack.push((a, b));
                    hi = lo + b;
                    lo += a;
                }
                more!("{stack:?}");
                let s1 = s0.slice(stack[0].0..stack[0].1);
                let s2 = s1.slice(stack[1].0..stack[1].1);
                let s3 = s2.slice(stack[2].0..stack[2].1);
                let s4 = s3.slice(stack[3].0..stack[3].1);
                must_eq!(scontent(&s4), all[lo..hi], "content of the innermost slice");
            }
        });
    }
}

pub fn c06_live(cx: &mut Cx) {
    let _ = &cx;
    // slices are live views: changes through one are seen through the other; identity of elements
    for n in 1..if cfg!(miri) { 4 } else { 12 } {
        for a in 0..n {
            for b in a + 1..=n {
                kinds!(usize, n, |v, k| {
                    ctx!("{k} vec of {n} elements, live slice {a}..{b}");
                    v.extend(0..n);
                    let s = v.slice(a..b);
                    for i in 0..b - a {
                        must!(std::ptr::eq(&s[i], &v[a + i]), "element {i} of the slice is not element {} of the vec", a + i);
                        must!(std::ptr::eq(s.get(i).unwrap(), &v[a + i]), "get({i}) of the slice is not element {} of the vec", a + i);
                        s[i].set(100 + i);
                        must_eq!(v[a + i].copied(), 100 + i, "value set through the slice");
                        v[a + i].update(|x| *x += 100);
                        must_eq!(s[i].copied(), 200 + i, "value updated through the vec");
                    }
                    for (i, e) in s.iter().enumerate() {
                        must!(std::ptr::eq(e, &v[a + i]), "iterated element {i} of the slice is not element {} of the vec", a + i);
                    }
                    for i in (0..a).chain(b..n) {
                        must_eq!(v[i].copied(), i, "value outside the slice");
                    }
                });
            }
        }
    }
    // slice of a vec with a gap: only what is before the gap
    kinds!(usize, 30, |v, k| {
        ctx!("{k} vec of 5 elements, a gap, 3 elements");
        v.extend(0..5);
        v.push_for_idx(|i| {
            v.extend(6..9);
            must_eq!(scontent(&v.slice(..)), vec![0, 1, 2, 3, 4], "slice(..)");
            must_eq!(scontent(&v.slice(2..8)), vec![2, 3, 4], "slice(2..8)");
            must_eq!(scontent(&v.slice(2..=7)), vec![2, 3, 4], "slice(2..=7)");
            must_eq!(scontent(&v.slice(6..8)), Vec::<usize>::new(), "slice(6..8)");
            i
        });
        must_eq!(scontent(&v.slice(2..8)), vec![2, 3, 4, 5, 6, 7], "slice(2..8) after the gap is closed");
    });
    // concurrent growth
    for round in 0..cx.reps(30, 1) {
        let n = if cfg!(miri) { 6 } else { 400 };
        let seed = cx.rng.next();
        let fin = AtomicBool::new(false);
        kinds!(usize, n, |v, k| {
            ctx!("{k} vec, slices while it grows, seed {seed}, round {round}");
            fin.store(false, SeqCst);
            par(3, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                if t == 0 {
                    for _ in 0..n {
                        v.push_for_idx(|i| {
                            jitter(&mut r);
                            i
                        });
                    }
                    fin.store(true, SeqCst);
                } else {
                    while !fin.load(SeqCst) {
                        let l = v.len();
                        let a = r.below(l + 1);
                        let b = a + r.below(l - a + 1);
                        let s = v.slice(a..b);
                        must_eq!(s.len(), b - a, "length of slice({a}..{b}) when the vec has {l} elements");
                        if r.chance(1, 4) {
                            must_eq!(s.clone_to_vec(), (a..b).collect::<Vec<_>>(), "content of slice({a}..{b})");
                        } else if a < b {
                            let p = r.below(b - a);
                            must_eq!(s.get_copied(p), Some(a + p), "element {p} of slice({a}..{b})");
                        }
                        let s = v.as_slice();
                        must!(s.len() >= l, "as_slice has {} elements after the length {l} was observed", s.len());
                    }
                }
            });
        });
    }
}

// ------------------------------------------------------------------ C07
fn chunk_sizes(n: usize) -> Vec<usize> {
    let mut c: Vec<usize> = (1..=n + 2).collect();
    c.extend([2 * n + 1, 1000, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
    c
}
macro_rules! splits {
    ($x:expr, $all:expr, $what:expr) => {{
        let (x, all, n): (_, &[usize], usize) = (&$x, &$all[..], $all.len());
        for mid in (0..n + 3).chain([usize::MAX]) {
            more!("{} of {n} elements, split_at({mid})", $what);
            match try_run(|| {
                let (a, b) = x.split_at(mid);
                (scontent(&a), scontent(&b))
            }) {
                Ok((a, b)) => {
                    must!(mid <= n, "split_at({mid}) of {n} elements must panic");
                    must_eq!(a, all[..mid], "left part");
                    must_eq!(b, all[mid..], "right part");
                }
                Err(()) => must!(mid > n, "split_at({mid}) of {n} elements panicked"),
            }
        }
        more!("{} of {n} elements, split_first and split_last", $what);
        match x.split_first() {
            Some((e, s)) => {
                must!(n > 0, "split_first of nothing");
                must!(std::ptr::eq(e, x.get(0).unwrap()), "element of split_first is not the first one");
                must_eq!(e.copied(), all[0], "first");
                must_eq!(scontent(&s), all[1..], "rest of split_first");
            }
            None => must_eq!(n, 0, "number of elements when split_first is None"),
        }
        match x.split_last() {
            Some((e, s)) => {
                must!(n > 0, "split_last of nothing");
                must!(std::ptr::eq(e, x.get(n - 1).unwrap()), "element of split_last is not the last one");
                must_eq!(e.copied(), all[n - 1], "last");
                must_eq!(scontent(&s), all[..n - 1], "rest of split_last");
            }
            None => must_eq!(n, 0, "number of elements when split_last is None"),
        }
        for c in chunk_sizes(n) {
            more!("{} of {n} elements, chunks({c})", $what);
            let it = x.chunks(c);
            must_eq!(it.len(), n.div_ceil(c), "number of chunks announced");
            let got: Vec<Vec<usize>> = it.map(|s| scontent(&s)).collect();
            let want: Vec<Vec<usize>> = all.chunks(c).map(|x| x.to_vec()).collect();
            must_eq!(got, want, "chunks({c})");
        }
        must!(panics(|| x.chunks(0).len()), "chunks(0) must panic");
    }};
}
pub fn c07_all(cx: &mut Cx) {
    let m = if cfg!(miri) { 5 } else { 22 };
    let _ = &cx;
    for n in 0..m {
        kinds!(usize, n, |v, k| {
            ctx!("{k} vec");
            v.extend(100..100 + n);
            let all: Vec<usize> = (100..100 + n).collect();
            splits!(v, all, "vec");
            splits!(v.as_slice(), all, "slice of all");
        });
        if n < 10 {
            for a in 0..=n {
                for b in a..=n {
                    kinds!(usize, n, |v, k| {
                        ctx!("{k} vec of {n} elements, slice {a}..{b}");
                        v.extend(100..100 + n);
                        let all: Vec<usize> = (100 + a..100 + b).collect();
                        let s = v.slice(a..b);
                        splits!(s, all, "slice");
                    });
                }
            }
        }
    }
    for _ in 0..cx.reps(20, 0) {
        let n = 30 + cx.rng.below(200);
        kinds!(usize, n, |v, k| {
            ctx!("{k} vec of {n} elements");
            v.extend(0..n);
            for c in [1, 3, 4, 7, 16, 31, n / 2, n - 1, n] {
                more!("chunks({c})");
                let got: Vec<usize> = v.chunks(c).flat_map(|s| s.clone_to_vec()).collect();
                must_eq!(got, (0..n).collect::<Vec<_>>(), "concatenated chunks");
                must!(v.chunks(c).all(|s| s.len() <= c && !s.is_empty()), "a chunk is empty or too large");
                must_eq!(v.chunks(c).len(), n.div_ceil(c), "number of chunks");
                must_eq!(v.chunks(c).count(), n.div_ceil(c), "number of chunks");
            }
        });
    }
}
pub fn c07_grow(cx: &mut Cx) {
    let _ = &cx;
    // chunks and splits were fixed when they were made
    for n in 0..if cfg!(miri) { 3 } else { 12 } {
        for c in 1..n + 3 {
            kinds!(usize, 2 * n + 20, |v, k| {
                ctx!("{k} vec of {n} elements, chunks({c}) while the vec grows between two chunks");
                v.extend(0..n);
                let mut all = vec![];
                let mut lens = vec![];
                for s in v.chunks(c) {
                    if k != "fixed" || v.len() < v.capacity() {
                        v.push(1000);
                    }
                    lens.push(s.len());
                    all.extend(scontent(&s));
                }
                must_eq!(all, (0..n).collect::<Vec<_>>(), "concatenated chunks");
                must_eq!(lens, (0..n).collect::<Vec<_>>().chunks(c).map(|x| x.len()).collect::<Vec<_>>(), "chunk lengths");
            });
        }
    }
    for round in 0..cx.reps(30, 1) {
        let n = if cfg!(miri) { 6 } else { 300 };
        let seed = cx.rng.next();
        let fin = AtomicBool::new(false);
        kinds!(usize, n, |v, k| {
            ctx!("{k} vec, splits while it grows, seed {seed}, round {round}");
            fin.store(false, SeqCst);
            par(3, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                if t == 0 {
                    for _ in 0..n {
                        v.push_for_idx(|i| {
                            jitter(&mut r);
                            i
                        });
                    }
                    fin.store(true, SeqCst);
                } else {
                    while !fin.load(SeqCst) {
                        let l = v.len();
                        match r.below(4) {
                            0 => {
                                let m = r.below(l + 1);
                                let (a, b) = v.split_at(m);
                                must_eq!(a.len(), m, "left part of split_at({m})");
                                must!(b.len() >= l - m, "right part of split_at({m}) has {} elements, the vec had {l}", b.len());
                                must_eq!(b.iter().next().map(|e| e.copied()), if b.is_empty() { None } else { Some(m) }, "first of the right part");
                            }
                            1 => match v.split_first() {
                                Some((e, s)) => {
                                    must_eq!(e.copied(), 0, "first");
                                    must!(s.len() + 1 >= l, "rest of split_first");
                                    must!(s.is_empty() || s[0].copied() == 1, "rest of split_first");
                                }
                                None => must_eq!(l, 0, "length when split_first is None"),
                            },
                            2 => match v.split_last() {
                                Some((e, s)) => {
                                    must_eq!(e.copied(), s.len(), "last element against the number of elements before it");
                                    must!(s.len() + 1 >= l, "rest of split_last");
                                }
                                None => must_eq!(l, 0, "length when split_last is None"),
                            },
                            _ => {
                                let c = 1 + r.below(9);
                                let mut at = 0;
                                let mut last = c;
                                for s in v.chunks(c) {
                                    must_eq!(last, c, "length of a chunk which is not the last");
                                    last = s.len();
                                    must_eq!(s[0].copied(), at, "first element of a chunk");
                                    must_eq!(s[last - 1].copied(), at + last - 1, "last element of a chunk");
                                    at += last;
                                }
                                must!(at >= l, "chunks cover {at} elements, the vec had {l}");
                            }
                        }
                    }
                }
            });
        });
    }
}
