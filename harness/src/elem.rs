//! C04, C05, C08, C09: access, element operations, swap, fill
use crate::util::*;
use orx_concurrent_vec::*;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};

const FAR: [usize; 7] = [100, 1 << 20, (1 << 32) - 1, 1 << 40, usize::MAX / 2, usize::MAX - 1, usize::MAX];

// ------------------------------------------------------------------ C04
pub fn c04_all(cx: &mut Cx) {
    let m = if cfg!(miri) { 7 } else { 40 };
    let _ = &cx;
    for n in 0..m {
        kinds!(usize, n, |v, k| {
            for i in 0..n {
                v.push(1000 + i);
            }
            ctx!("{k} vec of {n} elements");
            let at = |i: usize| if i < n { Some(1000 + i) } else { None };
            for i in (0..n + 70).chain(FAR) {
                more!("access {i}");
                must_eq!(v.get(i).map(|e| e.copied()), at(i), "get({i})");
                must_eq!(v.get_cloned(i), at(i), "get_cloned({i})");
                must_eq!(v.get_copied(i), at(i), "get_copied({i})");
                match at(i) {
                    Some(x) => must_eq!(v[i].map(|y| *y), x, "[{i}]"),
                    None => must!(panics(|| v[i].copied()), "[{i}] beyond the length must panic"),
                }
            }
            let s = v.as_slice();
            for i in (0..n + 70).chain(FAR) {
                more!("access {i} of the slice of all elements");
                must_eq!(s.get(i).map(|e| e.copied()), at(i), "slice get({i})");
                must_eq!(s.get_cloned(i), at(i), "slice get_cloned({i})");
                must_eq!(s.get_copied(i), at(i), "slice get_copied({i})");
                match at(i) {
                    Some(x) => must_eq!(s[i].map(|y| *y), x, "slice [{i}]"),
                    None => must!(panics(|| s[i].copied()), "slice [{i}] beyond the length must panic"),
                }
            }
        });
        for a in 0..n.min(9) {
            for b in a..=n.min(9) {
                kinds!(usize, n, |v, k| {
                    v.extend(1000..1000 + n);
                    ctx!("{k} vec of {n} elements, slice {a}..{b}");
                    let s = v.slice(a..b);
                    for i in (0..n + 5).chain(FAR) {
                        let w = if i < b - a { Some(1000 + a + i) } else { None };
                        must_eq!(s.get(i).map(|e| e.copied()), w, "get({i})");
                        must_eq!(s.get_cloned(i), w, "get_cloned({i})");
                        must_eq!(s.get_copied(i), w, "get_copied({i})");
                        match w {
                            Some(x) => must_eq!(s[i].map(|y| *y), x, "[{i}]"),
                            None => must!(panics(|| s[i].copied()), "[{i}] beyond the length must panic"),
                        }
                    }
                });
            }
        }
    }
    // after failed growth nothing appears
    for cap in 0..6usize {
        let v: ConcurrentVec<usize, FixedVec<_>> = ConcurrentVec::with_fixed_capacity(cap);
        ctx!("fixed vec of capacity {cap} after 3 failed pushes");
        v.extend(0..cap);
        for _ in 0..3 {
            must!(panics(|| v.push(1)), "push beyond the capacity must panic");
        }
        for i in (0..cap + 9).chain(FAR) {
            let w = if i < cap { Some(i) } else { None };
            must_eq!(v.get_cloned(i), w, "get_cloned({i})");
            must_eq!(v.get(i).map(|e| e.copied()), w, "get({i})");
            if i >= cap {
                must!(panics(|| v[i].copied()), "[{i}] must panic");
            }
        }
    }
}

pub fn c04_gap(cx: &mut Cx) {
    let _ = &cx;
    // a value is found as soon as its growth call returned, also beyond a gap
    for at in 0..if cfg!(miri) { 4 } else { 14 } {
        kinds!(Tk, at + 30, |v, k| {
            ctx!("{k} vec, position {at} unwritten, values after it");
            v.extend(tks(0..at as i64));
            v.push_for_idx(|i| {
                for j in 0..12 {
                    let p = v.push(Tk::new(500 + j));
                    must_eq!(v.get_cloned(p).map(|x| x.get()), Some(500 + j), "get_cloned({p})");
                    must!(v.get(p).is_none(), "get({p}) beyond the length {at}");
                    must!(panics(|| v[p].cloned()), "[{p}] beyond the length {at} must panic");
                    must!(v.get_cloned(at).is_none(), "get_cloned of the unwritten position {at}");
                    must!(v.get(at).is_none(), "get of the unwritten position {at}");
                    must!(v.get_cloned(p + 1).is_none(), "get_cloned beyond the last position");
                    for q in 0..at {
                        must_eq!(v.get_cloned(q).map(|x| x.get()), Some(q as i64), "get_cloned({q})");
                        must_eq!(v[q].map(|x| x.get()), q as i64, "[{q}]");
                    }
                }
                Tk::new(i as i64)
            });
            for p in 0..at + 13 {
                must!(v.get(p).is_some(), "get({p}) after the gap is closed");
            }
        });
    }
}

pub fn c04_par(cx: &mut Cx) {
    for round in 0..cx.reps(40, 1) {
        let th = cx.threads(2 + round % 4);
        let n = if cfg!(miri) { 5 } else { 150 };
        let seed = cx.rng.next();
        kinds!(Tk, th * n, |v, k| {
            ctx!("{k} vec, {th} threads push and read back; readers probe all positions, seed {seed}");
            let top = AtomicUsize::new(0);
            let live = AtomicUsize::new(th);
            par(th + 2, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                if t < th {
                    for _ in 0..n {
                        let i = v.push_for_idx(|i| Tk::new(i as i64));
                        must_eq!(v.get_cloned(i).map(|x| x.get()), Some(i as i64), "get_cloned({i}) after the push returned");
                        if let Some(e) = v.get(i) {
                            must_eq!(e.map(|x| x.get()), i as i64, "get({i})");
                        }
                        top.fetch_max(i, SeqCst);
                    }
                    live.fetch_sub(1, SeqCst);
                } else {
                    while live.load(SeqCst) > 0 {
                        let p = r.below(top.load(SeqCst) + 6);
                        if let Some(x) = v.get_cloned(p) {
                            must_eq!(x.get(), p as i64, "get_cloned({p})");
                        }
                        if let Some(x) = v.get(p) {
                            must_eq!(x.map(|x| x.get()), p as i64, "get({p})");
                        }
                        let l = v.len();
                        if l > 0 {
                            let q = l - 1 - r.below(l.min(4));
                            must_eq!(v[q].map(|x| x.get()), q as i64, "[{q}] below the length {l}");
                            must_eq!(v.get_cloned(q).map(|x| x.get()), Some(q as i64), "get_cloned({q}) below the length {l}");
                        }
                    }
                }
            });
        });
    }
}

// ------------------------------------------------------------------ C05
pub fn c05_seq(cx: &mut Cx) {
    for n in 1..if cfg!(miri) { 4 } else { 20 } {
        kinds!(Tk, n, |v, k| {
            v.extend(tks(0..n as i64));
            let mut model: Vec<i64> = (0..n as i64).collect();
            for step in 0..cx.reps(30, 6) {
                let p = cx.rng.below(n);
                let op = cx.rng.below(5);
                let x = 100 + step as i64;
                ctx!("{k} vec of {n} elements, step {step}: element op {op} at {p}");
                let e = &v[p];
                let before = live();
                match op {
                    0 => {
                        e.set(Tk::new(x));
                        model[p] = x;
                    }
                    1 => {
                        let old = e.replace(Tk::new(x));
                        must_eq!(old.get(), model[p], "value returned by replace");
                        model[p] = x;
                    }
                    2 => {
                        let mut calls = 0;
                        e.update(|y| {
                            calls += 1;
                            must_eq!(y.get(), model[p], "value given to update");
                            y.put(x);
                        });
                        must_eq!(calls, 1, "number of calls of the update closure");
                        model[p] = x;
                    }
                    3 => {
                        let mut calls = 0;
                        must_eq!(
                            e.map(|y| {
                                calls += 1;
                                y.get() * 2
                            }),
                            model[p] * 2,
                            "result of map"
                        );
                        must_eq!(calls, 1, "number of calls of the map closure");
                    }
                    _ => must_eq!(e.cloned().get(), model[p], "cloned"),
                }
                must_eq!(live(), before, "number of values alive");
                must_eq!(content(&v), model, "content");
            }
        });
        must_eq!(live(), 0, "number of values alive at the end");
    }
}

/// updates are exclusive: nothing is lost, nothing is torn, nobody else is inside
pub fn c05_par(cx: &mut Cx) {
    for round in 0..cx.reps(40, 2) {
        let th = cx.threads(2 + round % 7);
        let n = 1 + cx.rng.below(4);
        let ops = if cfg!(miri) { 8 } else { 300 };
        let seed = cx.rng.next();
        kinds!(Tk, n, |v, k| {
            ctx!("{k} vec of {n} elements, {th} threads with {ops} element ops each, seed {seed}");
            v.extend(tks(vec![0; n]));
            let inside: Vec<AtomicUsize> = (0..n).map(|_| AtomicUsize::new(0)).collect();
            let adds: Vec<i64> = par(th, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                let mut sum = 0i64;
                for _ in 0..ops {
                    let p = r.below(n);
                    let ins = |what: &str| must!(inside[p].fetch_add(1, SeqCst) == 0, "{what} of element {p} while another access is in progress");
                    match r.below(5) {
                        0 | 1 => {
                            let d = 1 + r.below(5) as i64;
                            v[p].update(|x| {
                                ins("update");
                                let y = x.get();
                                jitter(&mut r);
                                x.put(y + d);
                                inside[p].fetch_sub(1, SeqCst);
                            });
                            sum += d;
                        }
                        2 => v[p].map(|x| {
                            ins("map");
                            let a = x.get();
                            jitter(&mut r);
                            must_eq!(x.get(), a, "value while it is mapped");
                            inside[p].fetch_sub(1, SeqCst);
                        }),
                        3 => {
                            let d = 1 + r.below(5) as i64;
                            // the value taken out is put back increased: nothing may be lost
                            let x = v[p].replace(Tk::new(0)).get();
                            v[p].update(|y| {
                                let z = y.get();
                                y.put(z + x + d);
                            });
                            sum += d;
                        }
                        _ => {
                            v[p].cloned().get();
                            v.get_cloned(p).map(|x| x.get());
                        }
                    }
                }
                sum
            });
            must_eq!(content(&v).iter().sum::<i64>(), adds.iter().sum::<i64>(), "sum of all updates");
        });
        must_eq!(live(), 0, "number of values alive at the end");
    }
    // every value put in comes out exactly once
    for round in 0..cx.reps(30, 2) {
        let th = cx.threads(2 + round % 7);
        let ops = if cfg!(miri) { 8 } else { 200 };
        let seed = cx.rng.next();
        kinds!(Tk, 2, |v, k| {
            ctx!("{k} vec of 2 elements, {th} threads replace {ops} times each, seed {seed}");
            v.extend(tks([-1, -2]));
            let outs = par(th, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                (0..ops).map(|i| v[r.below(2)].replace(Tk::new((t * ops + i) as i64)).get()).collect::<Vec<_>>()
            });
            let mut all: Vec<i64> = outs.into_iter().flatten().chain(content(&v)).collect();
            all.sort();
            must_eq!(all, (-2..(th * ops) as i64).collect::<Vec<_>>(), "values replaced plus values left");
        });
    }
}

// ------------------------------------------------------------------ C08
pub fn c08_seq(cx: &mut Cx) {
    let m = if cfg!(miri) { 6 } else { 18 };
    let _ = &cx;
    for n in 0..m {
        for i in (0..n + 2).chain([usize::MAX - 1, usize::MAX]) {
            for j in (0..n + 2).chain([usize::MAX - 1, usize::MAX]) {
                kinds!(Tk, n, |v, k| {
                    ctx!("{k} vec of {n} elements, swap({i}, {j})");
                    v.extend(tks(0..n as i64));
                    let mut w: Vec<i64> = (0..n as i64).collect();
                    let ok = i < n && j < n;
                    if ok {
                        w.swap(i, j);
                    }
                    must_eq!(v.swap(i, j), ok, "result");
                    must_eq!(content(&v), w, "content");
                });
                must_eq!(live(), 0, "number of values alive at the end");
            }
        }
    }
    for n in 0..m.min(8) {
        for a in 0..=n {
            for b in a..=n {
                for i in 0..b - a + 2 {
                    for j in 0..b - a + 2 {
                        kinds!(Tk, n, |v, k| {
                            ctx!("{k} vec of {n} elements, slice {a}..{b}, swap({i}, {j})");
                            v.extend(tks(0..n as i64));
                            let mut w: Vec<i64> = (0..n as i64).collect();
                            let ok = i < b - a && j < b - a;
                            if ok {
                                w.swap(a + i, a + j);
                            }
                            must_eq!(v.slice(a..b).swap(i, j), ok, "result");
                            must_eq!(content(&v), w, "content");
                        });
                    }
                }
            }
        }
    }
    // a gap: swap of positions beyond the length does nothing
    kinds!(Tk, 20, |v, k| {
        ctx!("{k} vec, swap beyond a gap");
        v.extend(tks(0..4));
        v.push_for_idx(|_| {
            v.push(Tk::new(5));
            for (i, j) in [(0, 5), (5, 0), (4, 0), (0, 4), (5, 4), (5, 5), (4, 4)] {
                must_eq!(v.swap(i, j), false, "swap({i}, {j}) with the length 4");
            }
            must_eq!(v.swap(1, 3), true, "swap(1, 3)");
            Tk::new(4)
        });
        must_eq!(content(&v), vec![0, 3, 2, 1, 4, 5], "content");
    });
}

pub fn c08_par(cx: &mut Cx) {
    for round in 0..cx.reps(60, 2) {
        let th = cx.threads(2 + round % 7);
        let n = 2 + cx.rng.below(5);
        let ops = if cfg!(miri) { 8 } else { 400 };
        let seed = cx.rng.next();
        kinds!(Tk, n, |v, k| {
            ctx!("{k} vec of {n} elements, {th} threads with {ops} swaps each in all directions, seed {seed}");
            v.extend(tks(0..n as i64));
            let s = v.as_slice();
            par(th, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                for _ in 0..ops {
                    let (i, j) = (r.below(n), r.below(n));
                    if r.chance(1, 3) {
                        must!(s.swap(i, j), "slice swap({i}, {j}) of {n} elements returned false");
                    } else {
                        must!(v.swap(i, j), "swap({i}, {j}) of {n} elements returned false");
                    }
                }
            });
            let mut c = content(&v);
            c.sort();
            must_eq!(c, (0..n as i64).collect::<Vec<_>>(), "sorted content");
        });
        must_eq!(live(), 0, "number of values alive at the end");
    }
    // together with updates: nothing is lost
    for round in 0..cx.reps(40, 2) {
        let th = cx.threads(3 + round % 5);
        let n = 2 + cx.rng.below(3);
        let ops = if cfg!(miri) { 8 } else { 300 };
        let seed = cx.rng.next();
        kinds!(Tk, n, |v, k| {
            ctx!("{k} vec of {n} elements, {th} threads swap and update, seed {seed}");
            v.extend(tks(vec![0; n]));
            let sums = par(th, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                let mut sum = 0;
                for _ in 0..ops {
                    let (i, j) = (r.below(n), r.below(n));
                    match r.below(3) {
                        0 => {
                            v[i].update(|x| {
                                let y = x.get();
                                jitter(&mut r);
                                x.put(y + 1)
                            });
                            sum += 1;
                        }
                        1 => {
                            v[i].map(|x| x.get());
                        }
                        _ => must!(v.swap(i, j), "swap({i}, {j}) of {n} elements returned false"),
                    }
                }
                sum
            });
            must_eq!(content(&v).iter().sum::<i64>(), sums.iter().sum::<i64>(), "sum of all updates");
        });
    }
    // atomic: an observer holding one of the two never sees a half-done exchange, and the swap waits
    for p in 0..2 {
        kinds!(Tk, 4, |v, k| {
            ctx!("{k} vec, swap(0, 2) while element {} is held by a reader", 2 * p);
            v.extend(tks(0..4));
            let (held, go) = (AtomicBool::new(false), AtomicBool::new(false));
            let done = AtomicBool::new(false);
            par(2, |t| {
                if t == 0 {
                    v[2 * p].map(|x| {
                        held.store(true, SeqCst);
                        for _ in 0..if cfg!(miri) { 30 } else { 2000 } {
                            must_eq!(x.get(), 2 * p as i64, "value while it is read");
                            must!(!done.load(SeqCst), "swap returned while one of its elements was held");
                            std::thread::yield_now();
                        }
                        go.store(true, SeqCst);
                    });
                } else {
                    wait_for(&held);
                    let r = v.swap(0, 2);
                    must!(go.load(SeqCst), "swap returned while one of its elements was held");
                    done.store(true, SeqCst);
                    must!(r, "swap of two present elements returned false");
                }
            });
            must_eq!(content(&v), vec![2, 1, 0, 3], "content");
        });
    }
}

// ------------------------------------------------------------------ C09
pub fn c09_seq(cx: &mut Cx) {
    let m = if cfg!(miri) { 6 } else { 34 };
    let _ = &cx;
    for n in 0..m {
        kinds!(Tk, 2 * n + 1, |v, k| {
            ctx!("{k} vec of {n} elements, fill and fill_with");
            v.extend(tks(0..n as i64));
            let before = live();
            v.fill(Tk::new(77));
            must_eq!(live(), before, "number of values alive after fill");
            must_eq!(content(&v), vec![77; n], "content after fill");
            let mut calls = vec![];
            v.fill_with(|i| {
                calls.push(i);
                Tk::new(calls.len() as i64 * 10)
            });
            must_eq!(calls, (0..n).collect::<Vec<_>>(), "calls of the fill_with closure");
            must_eq!(content(&v), (1..=n as i64).map(|x| x * 10).collect::<Vec<_>>(), "content after fill_with");
            must_eq!(live(), before, "number of values alive after fill_with");
            // growth inside the closure: the elements there at the start are filled
            let mut c2 = 0;
            v.fill_with(|i| {
                must_eq!(i, c2, "index given to the fill_with closure");
                c2 += 1;
                if k != "fixed" {
                    v.push(Tk::new(-1));
                }
                Tk::new(i as i64)
            });
            must_eq!(c2, n, "number of calls of the fill_with closure");
            let mut w: Vec<i64> = (0..n as i64).collect();
            if k != "fixed" {
                w.extend(vec![-1; n]);
            }
            must_eq!(content(&v), w, "content after fill_with whose closure pushes");
        });
        must_eq!(live(), 0, "number of values alive at the end");
    }
    for n in 0..m.min(10) {
        for a in 0..=n {
            for b in a..=n {
                kinds!(Tk, n, |v, k| {
                    ctx!("{k} vec of {n} elements, fill and fill_with of the slice {a}..{b}");
                    v.extend(tks(0..n as i64));
                    let mut w: Vec<i64> = (0..n as i64).collect();
                    v.slice(a..b).fill(Tk::new(77));
                    w[a..b].fill(77);
                    must_eq!(content(&v), w, "content after fill");
                    let mut calls = vec![];
                    v.slice(a..b).fill_with(|i| {
                        calls.push(i);
                        Tk::new(500 + i as i64)
                    });
                    must_eq!(calls, (0..b - a).collect::<Vec<_>>(), "calls of the fill_with closure");
                    for i in a..b {
                        w[i] = 500 + (i - a) as i64;
                    }
                    must_eq!(content(&v), w, "content after fill_with");
                });
            }
        }
    }
}
pub fn c09_par(cx: &mut Cx) {
    // fill is a sequence of exclusive sets: concurrent updates are not torn, concurrent growth is not disturbed
    for round in 0..cx.reps(40, 1) {
        let n = 1 + cx.rng.below(12);
        let seed = cx.rng.next();
        let ops = if cfg!(miri) { 3 } else { 60 };
        kinds!(Tk, n + ops, |v, k| {
            ctx!("{k} vec of {n} elements: fill, fill_with, pushes and reads run concurrently, seed {seed}, round {round}");
            v.extend(tks(vec![0; n]));
            let filled = AtomicI64::new(0);
            par(4, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                for i in 0..ops {
                    match t {
                        0 => v.fill(Tk::new(1000 + i as i64)),
                        1 => v.fill_with(|p| {
                            jitter(&mut r);
                            Tk::new(2000 + p as i64)
                        }),
                        2 => {
                            v.push(Tk::new(5000 + i as i64));
                        }
                        _ => {
                            let c = content(&v);
                            must!(c.len() >= n, "length {} after {n} values were added", c.len());
                            for (p, x) in c.iter().enumerate() {
                                let ok = (p < n && *x == 0) || (1000..1000 + ops as i64).contains(x) || *x == 2000 + p as i64 || (p >= n && *x == 5000 + (p - n) as i64);
                                must!(ok, "value {x} at {p} was never put there");
                            }
                            filled.fetch_add(1, SeqCst);
                        }
                    }
                }
            });
            must_eq!(v.len(), n + ops, "length");
            let len = v.len();
            v.fill(Tk::new(3));
            must_eq!(content(&v), vec![3; len], "content after the last fill");
        });
        must_eq!(live(), 0, "number of values alive at the end");
    }
}
