//! C10, C11: iteration shorthands, search, equality, formatting
use crate::util::*;
use orx_concurrent_vec::*;
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

/// equality that depends on the side
#[derive(Clone, Copy, Debug)]
pub struct Le(pub i64);
impl PartialEq for Le {
    fn eq(&self, o: &Self) -> bool {
        self.0 <= o.0
    }
}

macro_rules! shorthands {
    ($x:expr, $all:expr) => {{
        let (x, all): (_, Vec<i64>) = (&$x, $all.to_vec());
        let calls = RefCell::new(vec![]);
        must_eq!(x.iter().map(|e| e.map(|y| y.get())).collect::<Vec<_>>(), all, "iter");
        must_eq!(x.iter_cloned().map(|y| y.get()).collect::<Vec<_>>(), all, "iter_cloned");
        must_eq!(ids(&x.clone_to_vec()), all, "clone_to_vec");
        let got: Vec<i64> = x
            .map(|y| {
                calls.borrow_mut().push(y.get());
                y.get() * 3 + 1
            })
            .collect();
        must_eq!(got, all.iter().map(|y| y * 3 + 1).collect::<Vec<_>>(), "map");
        must_eq!(*calls.borrow(), all, "values given to the map closure");
        calls.borrow_mut().clear();
        for m in [1, 2, 3, 7] {
            let got: Vec<i64> = x
                .filter(|y| {
                    calls.borrow_mut().push(y.get());
                    y.get() % m == 0
                })
                .map(|e| e.map(|y| y.get()))
                .collect();
            must_eq!(got, all.iter().copied().filter(|y| y % m == 0).collect::<Vec<_>>(), "filter of the multiples of {m}");
            must_eq!(*calls.borrow(), all, "values given to the filter closure");
            calls.borrow_mut().clear();
        }
        // stateful closures are called in order
        let mut c = 0;
        must_eq!(
            x.filter(|_| {
                c += 1;
                c % 2 == 1
            })
            .map(|e| e.map(|y| y.get()))
            .collect::<Vec<_>>(),
            all.iter().copied().step_by(2).collect::<Vec<_>>(),
            "every second by filter"
        );
        let mut c = 0;
        must_eq!(
            x.map(|y| {
                c += 1;
                y.get() * 100 + c
            })
            .collect::<Vec<_>>(),
            all.iter().enumerate().map(|(i, y)| y * 100 + i as i64 + 1).collect::<Vec<_>>(),
            "map with a counter"
        );
        let got = x.fold(vec![], |mut a, y| {
            a.push(y.get());
            a
        });
        must_eq!(got, all, "fold");
        must_eq!(x.fold(7i64, |a, y| a.wrapping_mul(31).wrapping_add(y.get())), all.iter().fold(7i64, |a, y| a.wrapping_mul(31).wrapping_add(*y)), "fold");
        let f = |a: i64, b: i64| a.wrapping_mul(3).wrapping_sub(b) % 100_003;
        let mut n = 0;
        let got = x.reduce(|a, b| {
            n += 1;
            Tk::new(f(a.get(), b.get()))
        });
        must_eq!(got.as_ref().map(|y| y.get()), all.iter().copied().reduce(f), "reduce");
        must_eq!(n, all.len().saturating_sub(1), "number of calls of the reduce closure");
        for y in -1..12 {
            let w = all.iter().position(|z| *z == y);
            must_eq!(x.index_of(&Tk::new(y)), w, "index_of({y})");
            must_eq!(x.contains(&Tk::new(y)), w.is_some(), "contains({y})");
        }
        if !all.is_empty() {
            let mut n = 0;
            must_eq!(
                x.map(|y| {
                    n += 1;
                    y.get()
                })
                .next(),
                all.first().copied(),
                "first mapped"
            );
            must_eq!(n, 1, "number of calls of the map closure for the first value");
        }
    }};
}
pub fn c10_all(cx: &mut Cx) {
    let m = if cfg!(miri) { 5 } else { 20 };
    for n in 0..m {
        for _ in 0..cx.reps(3, 1) {
            let seed = cx.rng.next();
            kinds!(Tk, n, |v, k| {
                let mut r = Rng::new(seed);
                let all: Vec<i64> = (0..n).map(|_| r.below(10) as i64).collect();
                ctx!("{k} vec {all:?}");
                v.extend(tks(all.clone()));
                let before = live();
                shorthands!(v, all);
                let s = v.as_slice();
                shorthands!(s, all);
                for _ in 0..if cfg!(miri) { 1 } else { 6 } {
                    let a = r.below(n + 1);
                    let b = a + r.below(n - a + 1);
                    ctx!("{k} vec {all:?}, slice {a}..{b}");
                    let s = v.slice(a..b);
                    shorthands!(s, all[a..b]);
                }
                must_eq!(live(), before, "number of values alive");
                must_eq!(content(&v), all, "content afterwards");
            });
            must_eq!(live(), 0, "number of values alive at the end");
        }
    }
    // identity of iterated elements, order of equality
    kinds!(Le, 40, |v, k| {
        ctx!("{k} vec of values whose equality is <=");
        v.extend((0..30).map(|i: i32| Le(30 - i as i64)));
        for y in 0..33 {
            let w = (0..30).position(|i| Le(30 - i) == Le(y));
            must_eq!(v.index_of(&Le(y)), w, "index_of({y})");
            must_eq!(v.as_slice().index_of(&Le(y)), w, "slice index_of({y})");
            must_eq!(v.contains(&Le(y)), w.is_some(), "contains({y})");
            for i in [0usize, 7, 29] {
                must_eq!(v[i] == Le(y), 30 - i as i64 <= y, "element {i} == {y}");
            }
            let s = v.slice(3..11);
            let w = (3..11).position(|i| Le(30 - i) == Le(y));
            must_eq!(s.index_of(&Le(y)), w, "slice 3..11 index_of({y})");
            must_eq!(s.contains(&Le(y)), w.is_some(), "slice 3..11 contains({y})");
        }
        for (i, e) in v.iter().enumerate() {
            must!(std::ptr::eq(e, &v[i]), "iterated element {i} is not element {i}");
        }
        for (i, e) in v.filter(|x| x.0 % 3 == 0).enumerate() {
            must!(std::ptr::eq(e, &v[3 * i]), "filtered element {i} is not element {}", 3 * i);
        }
    });
    // NaN is never found
    let v: ConcurrentVec<f64> = [1.0, f64::NAN, 2.0].into_iter().collect();
    ctx!("[1.0, NaN, 2.0]");
    must_eq!(v.index_of(&f64::NAN), None, "index_of(NaN)");
    must!(!v.contains(&f64::NAN), "contains(NaN)");
    must_eq!(v.index_of(&2.0), Some(2), "index_of(2.0)");
}
pub fn c10_long(cx: &mut Cx) {
    // across many fragments and with a gap
    let n = if cfg!(miri) { 40 } else { 3000 };
    let _ = &cx;
    kinds!(usize, n, |v, k| {
        ctx!("{k} vec 0..{n}");
        v.extend(0..n);
        must!(v.iter().map(|e| e.copied()).eq(0..n), "iter");
        must!(v.iter_cloned().eq(0..n), "iter_cloned");
        must!(v.map(|x| x + 1).eq(1..n + 1), "map");
        must!(v.filter(|x| x % 3 == 0).map(|e| e.copied()).eq((0..n).step_by(3)), "filter");
        must_eq!(v.fold(0, |a, x| a + x), n * (n - 1) / 2, "fold");
        must_eq!(v.reduce(|a, b| a + b), Some(n * (n - 1) / 2), "reduce");
        for p in [0, 1, 4, 5, 11, 12, n / 2, n - 1] {
            must_eq!(v.index_of(&p), Some(p), "index_of({p})");
            must_eq!(v.slice(p..).index_of(&p), Some(0), "index_of({p}) in slice({p}..)");
            must_eq!(v.slice(..p).index_of(&p), None, "index_of({p}) in slice(..{p})");
        }
        must_eq!(v.index_of(&n), None, "index_of({n})");
    });
    kinds!(usize, 40, |v, k| {
        ctx!("{k} vec 0..5, a gap, 6..9");
        v.extend(0..5);
        v.push_for_idx(|i| {
            v.extend(6..9);
            must!(v.iter_cloned().eq(0..5), "iter_cloned");
            must!(v.map(|x| *x).eq(0..5), "map");
            must_eq!(v.fold(0, |a, x| a + x), 10, "fold");
            must_eq!(v.reduce(|a, b| a + b), Some(10), "reduce");
            must_eq!(v.index_of(&7), None, "index_of");
            must_eq!(v.clone_to_vec(), vec![0, 1, 2, 3, 4], "clone_to_vec");
            i
        });
        must!(v.iter_cloned().eq(0..9), "iter_cloned");
        must_eq!(v.index_of(&7), Some(7), "index_of");
    });
}
pub fn c10_par(cx: &mut Cx) {
    for round in 0..cx.reps(30, 1) {
        let n = if cfg!(miri) { 6 } else { 300 };
        let seed = cx.rng.next();
        let fin = AtomicBool::new(false);
        kinds!(usize, n, |v, k| {
            ctx!("{k} vec, iteration while it grows, seed {seed}, round {round}");
            fin.store(false, SeqCst);
            par(3, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                if t == 0 {
                    for _ in 0..n {
                        v.push_for_idx(|i| {
                            jitter(&mut r);
                            i
                        });
                    }
                    fin.store(true, SeqCst);
                } else {
                    while !fin.load(SeqCst) {
                        let l = v.len();
                        let ok = |c: usize, what: &str| must!(l <= c && c <= n, "{what} covered {c} elements, {l} were there before");
                        match r.below(7) {
                            0 => {
                                let x: Vec<usize> = v.iter_cloned().collect();
                                ok(x.len(), "iter_cloned");
                                must!(x.iter().copied().eq(0..x.len()), "iter_cloned {x:?}");
                            }
                            1 => {
                                let x: Vec<usize> = v.map(|x| *x).collect();
                                ok(x.len(), "map");
                                must!(x.iter().copied().eq(0..x.len()), "map {x:?}");
                            }
                            2 => {
                                let c = v.fold(0, |a, x| {
                                    must_eq!(*x, a, "next folded value");
                                    a + 1
                                });
                                ok(c, "fold");
                            }
                            3 => {
                                let x = v.reduce(|a, b| {
                                    must_eq!(a + 1, *b, "next reduced value");
                                    *b
                                });
                                ok(x.map_or(0, |x| x + 1), "reduce");
                            }
                            4 => ok(v.filter(|_| true).count(), "filter"),
                            5 => {
                                let x = v.clone_to_vec();
                                ok(x.len(), "clone_to_vec");
                                must!(x.iter().copied().eq(0..x.len()), "clone_to_vec {x:?}");
                            }
                            _ => {
                                if l > 0 {
                                    let p = r.below(l);
                                    must_eq!(v.index_of(&p), Some(p), "index_of({p}) below the length {l}");
                                    must!(v.contains(&p), "contains({p}) below the length {l}");
                                }
                            }
                        }
                    }
                }
            });
        });
    }
}

// ------------------------------------------------------------------ C11
fn vec_of(a: &[i64], pre: usize) -> ConcurrentVec<i64> {
    // the same content with a different history
    let v = ConcurrentVec::new();
    for x in a.iter().take(pre) {
        v.push(*x);
    }
    v.extend(a.iter().skip(pre).copied().collect::<Vec<_>>());
    v
}
fn eq_all(a: &[i64], b: &[i64]) {
    let w = a == b;
    ctx!("{a:?} against {b:?}");
    let (x, y) = (vec_of(a, 0), vec_of(b, b.len() / 2));
    must_eq!(x == y, w, "vec == vec");
    must_eq!(y == x, w, "vec == vec");
    must_eq!(x != y, !w, "vec != vec");
    must_eq!(x == y.as_slice(), w, "vec == slice");
    must_eq!(x.as_slice() == y, w, "slice == vec");
    must_eq!(x.as_slice() == y.as_slice(), w, "slice == slice");
    must_eq!(x == *b, w, "vec == [T]");
    must_eq!(x.as_slice() == *b, w, "slice == [T]");
    macro_rules! arr { ($($n:literal)*) => { match b.len() { $($n => {
        let z: [i64; $n] = b.try_into().unwrap();
        must_eq!(x == z, w, "vec == [T; N]");
        must_eq!(x.as_slice() == z, w, "slice == [T; N]");
    })* _ => {} } } }
    arr!(0 1 2 3 4 5 6);
    // windows of a larger vec
    let big: Vec<i64> = [9, 9].iter().chain(a).chain(&[9]).copied().collect();
    let bv = vec_of(&big, 1);
    let s = bv.slice(2..2 + a.len());
    must_eq!(s == y, w, "slice == vec");
    must_eq!(y == s, w, "vec == slice");
    must_eq!(s == y.as_slice(), w, "slice == slice");
    must_eq!(s == *b, w, "slice == [T]");
    must_eq!(format!("{x:?}"), format!("{a:?}"), "Debug of the vec");
    must_eq!(format!("{s:?}"), format!("{a:?}"), "Debug of the slice");
    must_eq!(content_i(&x), a, "content afterwards");
}
fn content_i(v: &ConcurrentVec<i64>) -> Vec<i64> {
    v.iter().map(|e| e.copied()).collect()
}
pub fn c11_all(cx: &mut Cx) {
    let m = if cfg!(miri) { 2 } else { 5 };
    let mut all: Vec<Vec<i64>> = vec![];
    for n in 0..m {
        for c in 0..2usize.pow(n as u32) {
            all.push((0..n).map(|i| ((c >> i) & 1) as i64).collect());
        }
    }
    for a in &all {
        for b in &all {
            eq_all(a, b);
        }
    }
    for _ in 0..cx.reps(60, 1) {
        let n = cx.rng.below(40);
        let a: Vec<i64> = (0..n).map(|_| cx.rng.below(4) as i64).collect();
        let mut b = a.clone();
        match cx.rng.below(5) {
            0 if n > 0 => {
                let p = cx.rng.below(n);
                b[p] += 1
            }
            1 => b.push(0),
            2 => {
                b.pop();
            }
            3 if n > 0 => b[n - 1] -= 1,
            _ => {}
        }
        eq_all(&a, &b);
    }
    // side of the equality
    ctx!("equality that is <=");
    let x: ConcurrentVec<Le> = [1, 2, 3].into_iter().map(Le).collect();
    let y: ConcurrentVec<Le> = [1, 3, 3].into_iter().map(Le).collect();
    must!(x == y && !(y == x), "vec == vec");
    must!(x == y.as_slice() && !(y == x.as_slice()), "vec == slice");
    must!(x.as_slice() == y && !(y.as_slice() == x), "slice == vec");
    must!(x.as_slice() == y.as_slice() && !(y.as_slice() == x.as_slice()), "slice == slice");
    must!(x == [Le(1), Le(3), Le(3)] && !(y == [Le(1), Le(2), Le(3)]), "vec == array");
    must!(x.as_slice() == [Le(1), Le(3), Le(3)] && !(y.as_slice() == [Le(1), Le(2), Le(3)]), "slice == array");
    must!(x == [Le(1), Le(3), Le(3)][..] && !(y == [Le(1), Le(2), Le(3)][..]), "vec == [T]");
    must!(x.as_slice() == [Le(1), Le(3), Le(3)][..] && !(y.as_slice() == [Le(1), Le(2), Le(3)][..]), "slice == [T]");
    must!(x[0] == x[1] && !(x[1] == x[0]), "element == element");
    must!(x[1] == y[1] && !(y[1] == x[1]), "element == element");
    must!(x[0] == Le(1) && !(x[1] == Le(1)), "element == value");
    // not reflexive
    ctx!("NaN");
    let v: ConcurrentVec<f64> = [1.0, f64::NAN].into_iter().collect();
    must!(!(v == v) && v != v, "a vec with NaN equals itself");
    must!(!(v[1] == v[1]), "a NaN element equals itself");
    must!(v[0] == v[0], "an element equals itself");
    must!(!(v.as_slice() == v.as_slice()) && v.slice(..1) == v.slice(..1), "slices with NaN");
    // with itself
    for n in 0..20 {
        ctx!("a vec of {n} elements with itself");
        let v = vec_of(&(0..n).collect::<Vec<_>>(), 3);
        must!(v == v, "vec == itself");
        must!(v == v.as_slice() && v.as_slice() == v && v.as_slice() == v.as_slice(), "vec == own slice");
        if n > 1 {
            must!(v.slice(1..) != v.slice(..n as usize - 1), "shifted slices of one vec");
            must!(v.slice(..n as usize - 1) != v.slice(1..), "shifted slices of one vec");
        }
        let c = vec_of(&vec![4; n as usize], 2);
        if n > 1 {
            must!(c.slice(1..) == c.slice(..n as usize - 1), "shifted slices of a constant vec");
        }
    }
    // formatting
    let v: ConcurrentVec<&str> = ["a", "b\"", ""].into_iter().collect();
    ctx!("strings");
    must_eq!(format!("{v:?}"), format!("{:?}", ["a", "b\"", ""]), "Debug of the vec");
    must_eq!(format!("{:?}", v.slice(1..)), format!("{:?}", ["b\"", ""]), "Debug of the slice");
    must_eq!(format!("{:?}", v[1]), format!("{:?}", "b\""), "Debug of the element");
    must_eq!(format!("{:?}", v.slice(1..1)), "[]", "Debug of the empty slice");
    let v: ConcurrentVec<Option<i32>> = [None, Some(1)].into_iter().collect();
    must_eq!(format!("{v:?}"), "[None, Some(1)]", "Debug of the vec");
    // Debug of other storages
    kinds!(Tk, 9, |v, k| {
        ctx!("{k} vec 0..9");
        v.extend(tks(0..9));
        must_eq!(format!("{v:?}"), "[0, 1, 2, 3, 4, 5, 6, 7, 8]", "Debug of the vec");
        must_eq!(format!("{:?}", v.slice(4..6)), "[4, 5]", "Debug of the slice");
    });
}
pub fn c11_par(cx: &mut Cx) {
    // comparisons in both directions terminate and are exact while elements are updated
    for round in 0..cx.reps(40, 2) {
        let th = cx.threads(2 + round % 6);
        let n = 1 + cx.rng.below(5);
        let ops = if cfg!(miri) { 4 } else { 200 };
        let seed = cx.rng.next();
        ctx!("two vecs of {n} elements, {th} threads compare in both directions, seed {seed}");
        let (x, y) = (vec_of(&vec![1; n], 0), vec_of(&vec![1; n], n));
        par(th + 1, |t| {
            let mut r = Rng::new(seed ^ (t as u64) << 32);
            for _ in 0..ops {
                if t == th {
                    // elements that never become equal across the vecs by these updates
                    x[r.below(n)].update(|v| *v = 1);
                    y[r.below(n)].set(1);
                    continue;
                }
                match r.below(8) {
                    0 => must!(x == y, "equal vecs"),
                    1 => must!(y == x, "equal vecs"),
                    2 => must!(x.as_slice() == y, "equal slice and vec"),
                    3 => must!(y == x.as_slice(), "equal vec and slice"),
                    4 => must!(x == x, "vec with itself"),
                    5 => must!(x[r.below(n)] == y[r.below(n)], "equal elements"),
                    6 => must!(y[r.below(n)] == x[r.below(n)], "equal elements"),
                    _ => must!(x[r.below(n)] == x[r.below(n)], "equal elements of one vec"),
                }
            }
        });
    }
    // two elements that always differ are never equal, although both change
    for round in 0..cx.reps(20, 1) {
        let seed = cx.rng.next();
        let ops = if cfg!(miri) { 6 } else { 3000 };
        ctx!("two elements; one moves through odd, the other through even values; seed {seed}, round {round}");
        let v = vec_of(&[0, 1], 0);
        par(4, |t| {
            for _ in 0..ops {
                match t {
                    0 => v[0].update(|x| {
                        *x += 1;
                        std::hint::spin_loop();
                        *x += 1
                    }),
                    1 => v[1].update(|x| {
                        *x += 1;
                        std::hint::spin_loop();
                        *x += 1
                    }),
                    2 => must!(!(v[0] == v[1]), "an even element equals an odd one"),
                    _ => must!(!(v[1] == v[0]), "an odd element equals an even one"),
                }
            }
        });
    }
    // Debug while growing
    for round in 0..cx.reps(20, 1) {
        let n = if cfg!(miri) { 5 } else { 200 };
        ctx!("Debug and equality while the vec grows, round {round}");
        let v: ConcurrentVec<i64> = ConcurrentVec::new();
        let fin = AtomicBool::new(false);
        par(3, |t| {
            if t == 0 {
                for i in 0..n {
                    v.push(i);
                }
                fin.store(true, SeqCst);
            } else {
                while !fin.load(SeqCst) {
                    let l = v.len();
                    let s = format!("{v:?}");
                    let c = if s == "[]" { 0 } else { s.split(", ").count() };
                    must_eq!(s, format!("{:?}", (0..c as i64).collect::<Vec<_>>()), "Debug");
                    must!(c >= l, "Debug shows {c} elements, {l} were there");
                    let sl = v.slice(..l);
                    must!(sl == (0..l as i64).collect::<Vec<_>>()[..], "slice against its values");
                    must!(sl == sl, "slice with itself");
                }
            }
        });
    }
}
