//! C01, C02, C03: growth and length
use crate::util::*;
use orx_concurrent_vec::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

fn idx_of<E, P: IntoConcurrentPinnedVec<ConcurrentElement<E>>>(v: &ConcurrentVec<E, P>, i: usize) -> usize {
    &v[i] as *const _ as usize
}

// ------------------------------------------------------------------ C01 sequential, all shapes
pub fn c01_seq(cx: &mut Cx) {
    // every growth call returns the position of its first value, for every prior length and batch size
    let (nb, nn) = if cfg!(miri) { (6, 6) } else { (22, 22) };
    for begin in 0..nb {
        for n in 0..nn {
            for op in 0..3 {
                kinds!(Tk, begin + n + 3, |v, k| {
                    ctx!("{k} vec, {begin} pushes, then growth op {op} with {n} values");
                    for i in 0..begin {
                        let r = if i % 2 == 0 { v.push(Tk::new(i as i64)) } else { v.push_for_idx(|j| Tk::new(j as i64)) };
                        must_eq!(r, i, "position returned by push {i}");
                    }
                    let r = match op {
                        0 => v.extend(tks((begin..begin + n).map(|x| x as i64))),
                        1 => v.extend_n_items((begin..begin + n + 2).map(|x| Tk::new(x as i64)), n),
                        _ => v.extend_for_idx(
                            |b| {
                                must_eq!(b, begin, "position given to the closure of extend_for_idx");
                                tks((b..b + n).map(|x| x as i64))
                            },
                            n,
                        ),
                    };
                    if n > 0 {
                        must_eq!(r, begin, "position returned by extend");
                    }
                    must_eq!(v.push(Tk::new((begin + n) as i64)), begin + n, "position returned by the next push");
                    must_eq!(v.push_for_idx(|j| Tk::new(j as i64)), begin + n + 1, "position returned by push_for_idx");
                    must_eq!(content(&v), (0..(begin + n + 2) as i64).collect::<Vec<_>>(), "content");
                    let vals = v.to_vec();
                    must_eq!(ids(&vals), (0..(begin + n + 2) as i64).collect::<Vec<_>>(), "owned content");
                });
            }
            must_eq!(live(), 0, "number of values alive at the end");
        }
    }
    // the closure of extend_for_idx gives another number of values than it was announced to give
    for begin in [0, 1, 4] {
        for n in 1..if cfg!(miri) { 3 } else { 9 } {
            for m in 0..if cfg!(miri) { 4 } else { 13 } {
                kinds!(Tk, begin + n + m + 5, |v, k| {
                    ctx!("{k} vec of {begin} values, extend_for_idx of {n} values whose closure gives {m}");
                    v.extend(tks(0..begin as i64));
                    let r = try_run(|| v.extend_for_idx(|b| tks((b..b + m).map(|x| x as i64)), n));
                    must!(r.is_ok() == (n == m), "{}", if n == m { "it must not panic" } else { "the call must panic and not store the values of another batch" });
                    let next = v.push(Tk::new(-1));
                    must_eq!(next, begin + n, "position returned by the next push");
                    must_eq!(unsafe { v.get_ref(next) }.map(|x| x.get()), Some(-1), "value of the next push");
                    for i in 0..begin {
                        must_eq!(v.get(i).map(|e| e.map(|x| x.get())), Some(i as i64), "value at {i}");
                    }
                });
            }
        }
    }
    // long sequences: positions are consecutive over many growth steps
    let n = cx.reps(3000, 60);
    kinds!(usize, n, |v, k| {
        ctx!("{k} vec, {n} values one by one and in batches");
        let mut at = 0;
        let mut b = 1;
        while at < n {
            let m = b.min(n - at);
            b = b * 2 % 37 + 1;
            let r = match b % 4 {
                0 => v.extend(at..at + m),
                1 => v.extend_n_items(at.., m),
                2 => v.extend_for_idx(|i| i..i + m, m),
                _ => {
                    for i in 0..m {
                        must_eq!(v.push(at + i), at + i, "position returned by push");
                    }
                    at
                }
            };
            must_eq!(r, at, "position returned by extend of {m}");
            at += m;
        }
        must_eq!(v.len(), n, "length");
        for i in 0..n {
            must_eq!(v.get_copied(i), Some(i), "value at {i}");
        }
    });
}

fn grow_one<P>(v: &ConcurrentVec<Tk, P>, r: &mut Rng, id: &mut i64, step: i64, left: usize, log: &mut Vec<(usize, Vec<i64>)>)
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>,
{
    let mut take = |n: usize| -> Vec<i64> {
        let s: Vec<i64> = (0..n as i64).map(|k| *id + k * step).collect();
        *id += n as i64 * step;
        s
    };
    let n = r.below(if cfg!(miri) { 5 } else { 11 }).min(left);
    let mut rr = r.clone();
    match r.below(6) {
        0 | 1 => {
            let s = take(1);
            let i = v.push(Tk::new(s[0]));
            log.push((i, s));
        }
        2 => {
            let s = take(1);
            let mut j = usize::MAX;
            let i = v.push_for_idx(|x| {
                j = x;
                jitter(&mut rr);
                Tk::new(s[0])
            });
            must_eq!(j, i, "position given to the closure of push_for_idx");
            log.push((i, s));
        }
        3 => {
            let s = take(n);
            let i = v.extend(tks(s.clone()));
            log.push((i, s));
        }
        4 => {
            let s = take(n);
            let i = v.extend_n_items(
                s.iter().map(|x| {
                    jitter(&mut rr);
                    Tk::new(*x)
                }),
                n,
            );
            log.push((i, s));
        }
        _ => {
            let s = take(n);
            let mut j = usize::MAX;
            let i = v.extend_for_idx(
                |x| {
                    j = x;
                    jitter(&mut rr);
                    tks(s.clone())
                },
                n,
            );
            must_eq!(j, i, "position given to the closure of extend_for_idx");
            log.push((i, s));
        }
    }
}

/// values at the positions returned, nothing lost, nothing twice, no holes
fn check_log<P>(v: ConcurrentVec<Tk, P>, logs: Vec<Vec<(usize, Vec<i64>)>>)
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>,
{
    let total: usize = logs.iter().flatten().map(|x| x.1.len()).sum();
    must_eq!(v.len(), total, "length after all threads finished");
    let mut exp = vec![None; total];
    for (t, log) in logs.iter().enumerate() {
        for (i, s) in log {
            for (k, x) in s.iter().enumerate() {
                must!(i + k < total, "position {} returned to thread {t} is beyond the number of values {total}", i + k);
                must!(exp[i + k].is_none(), "position {} was handed out twice", i + k);
                exp[i + k] = Some(*x);
            }
        }
    }
    let exp: Vec<i64> = exp.into_iter().map(|x| x.unwrap()).collect();
    must_eq!(content(&v), exp, "values by position");
    must_eq!(ids(&v.to_vec()), exp, "owned values by position");
    must_eq!(live(), 0, "number of values alive at the end");
}

pub fn c01_par(cx: &mut Cx) {
    for round in 0..cx.reps(60, 1) {
        let th = cx.threads(2 + round % 9);
        let ops = if cfg!(miri) { 4 } else { 40 };
        let seed = cx.rng.next();
        kinds!(Tk, th * ops * 11, |v, k| {
            ctx!("{k} vec, {th} threads, {ops} growth ops each, seed {seed}");
            let logs = par(th, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                let (mut id, mut log) = (t as i64, vec![]);
                for _ in 0..ops {
                    grow_one(&v, &mut r, &mut id, th as i64, 10, &mut log);
                    jitter(&mut r);
                }
                log
            });
            check_log(v, logs);
        });
    }
}

/// readers see only complete values while the vec grows
pub fn c01_read(cx: &mut Cx) {
    for round in 0..cx.reps(30, 1) {
        let th = cx.threads(2 + round % 6);
        let ops = if cfg!(miri) { 4 } else { 60 };
        let seed = cx.rng.next();
        let done = AtomicUsize::new(0);
        kinds!(Tk, th * ops * 11, |v, k| {
            ctx!("{k} vec, {th} growing threads and readers, seed {seed}");
            done.store(0, SeqCst);
            let logs = par(th + 2, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                let mut log = vec![];
                if t < th {
                    let mut id = t as i64;
                    for _ in 0..ops {
                        grow_one(&v, &mut r, &mut id, th as i64, 10, &mut log);
                        let (i, s) = log.last().unwrap();
                        // an own value can be read back immediately, whatever the others do
                        for (k, x) in s.iter().enumerate() {
                            must_eq!(v.get_cloned(i + k).map(|x| x.get()), Some(*x), "own value read back at {}", i + k);
                        }
                    }
                    done.fetch_add(1, SeqCst);
                } else {
                    let mut seen: Vec<i64> = vec![];
                    loop {
                        let fin = done.load(SeqCst) == th;
                        let now: Vec<i64> = if t == th { content(&v) } else { v.iter_cloned().map(|x| x.get()).collect() };
                        must!(now.len() >= seen.len(), "a reader saw {} values, then only {}", seen.len(), now.len());
                        must!(now[..seen.len()] == seen[..], "a value changed or moved while the vec was growing");
                        seen = now;
                        if fin {
                            break;
                        }
                    }
                }
                log
            });
            check_log(v, logs);
        });
    }
}

// ------------------------------------------------------------------ C02
/// the capacity is used up to the last position by concurrent growth, and not beyond
pub fn c02_full(cx: &mut Cx) {
    for round in 0..cx.reps(120, 2) {
        let th = cx.threads(2 + round % 7);
        let cap = if cfg!(miri) { 12 } else { 8 + 4 * cx.rng.below(12) };
        let seed = cx.rng.next();
        for lin in [true, false] {
            if lin {
                let v: ConcurrentVec<Tk, SplitVec<ConcurrentElement<Tk>, Linear>> = ConcurrentVec::with_linear_growth(2, cap.div_ceil(4));
                fill_up(&v, "linear", th, seed);
            } else {
                let v: ConcurrentVec<Tk, FixedVec<ConcurrentElement<Tk>>> = ConcurrentVec::with_fixed_capacity(cap);
                fill_up(&v, "fixed", th, seed);
            }
        }
        must_eq!(live(), 0, "number of values alive at the end");
    }
}
fn fill_up<P>(v: &ConcurrentVec<Tk, P>, k: &str, th: usize, seed: u64)
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>,
{
    let cap = v.maximum_capacity();
    ctx!("{k} vec with maximum capacity {cap}, {th} threads push {cap} values each, seed {seed}");
    let logs = par(th, |t| {
        let mut r = Rng::new(seed ^ (t as u64) << 32);
        let mut got = vec![];
        for i in 0..cap {
            jitter(&mut r);
            let id = (t * cap + i) as i64;
            let res = if r.chance(1, 2) { try_run(|| v.push(Tk::new(id))) } else { try_run(|| v.push_for_idx(|_| Tk::new(id))) };
            match res {
                Ok(i) => got.push((i, id)),
                Err(_) => break,
            }
        }
        got
    });
    let mut all: Vec<(usize, i64)> = logs.into_iter().flatten().collect();
    all.sort();
    must_eq!(all.len(), cap, "number of pushes that succeeded");
    for (i, (p, _)) in all.iter().enumerate() {
        must_eq!(*p, i, "positions handed out");
    }
    must_eq!(v.len(), cap, "length");
    must_eq!(v.capacity(), cap, "capacity");
    must_eq!(content(v), all.iter().map(|x| x.1).collect::<Vec<_>>(), "content");
    must!(panics(|| v.push(Tk::new(-1))), "push beyond the maximum capacity must panic");
    must!(panics(|| v.extend(tks([-1, -2]))), "extend beyond the maximum capacity must panic");
    must_eq!(content(v), all.iter().map(|x| x.1).collect::<Vec<_>>(), "content after failed growth");
}

/// every (begin, batch) combination around fragment boundaries; storage is never moved
pub fn c02_shapes(cx: &mut Cx) {
    let m = if cfg!(miri) { 9 } else { 26 };
    let _ = &cx;
    for begin in 0..m {
        for n in 0..m {
            kinds!(Tk, begin + n + 1, |v, k| {
                ctx!("{k} vec, {begin} pushes, extend of {n}, push");
                let mut addr: Vec<usize> = vec![];
                for i in 0..begin {
                    v.push(Tk::new(i as i64));
                    addr.push(idx_of(&v, i));
                }
                v.extend(tks((begin..begin + n).map(|x| x as i64)));
                for i in begin..begin + n {
                    addr.push(idx_of(&v, i));
                }
                v.push(Tk::new((begin + n) as i64));
                addr.push(idx_of(&v, begin + n));
                for i in 0..addr.len() {
                    must_eq!(idx_of(&v, i), addr[i], "address of element {i} after growth");
                }
                let mut a = addr.clone();
                a.sort();
                a.dedup();
                must_eq!(a.len(), addr.len(), "number of distinct element addresses");
                must!(v.capacity() >= v.len() && v.capacity() <= v.maximum_capacity(), "len {} <= capacity {} <= maximum {}", v.len(), v.capacity(), v.maximum_capacity());
                must_eq!(content(&v), (0..=(begin + n) as i64).collect::<Vec<_>>(), "content");
            });
        }
    }
    // bounded storage: exactly the batches that fit succeed
    for cap in 0..if cfg!(miri) { 5 } else { 13 } {
        for begin in 0..=cap {
            for n in 0..=cap + 3 {
                for lin in [false, true] {
                    let cap = if lin { (cap / 4 + 1) * 4 } else { cap };
                    ctx!("{} vec of maximum capacity {cap}, {begin} pushes, extend of {n}", if lin { "linear" } else { "fixed" });
                    if lin {
                        bounded(ConcurrentVec::<Tk, SplitVec<_, Linear>>::with_linear_growth(2, cap / 4), cap, begin, n);
                    } else {
                        bounded(ConcurrentVec::<Tk, FixedVec<_>>::with_fixed_capacity(cap), cap, begin, n);
                    }
                    must_eq!(live(), 0, "number of values alive at the end");
                }
            }
        }
    }
    // a new position is always empty until it is written, also in freshly grown memory
    kinds!(Tk, 40, |v, k| {
        ctx!("{k} vec, positions beyond the written ones are empty");
        for i in 0..20 {
            v.push_for_idx(|j| {
                for q in j..40 {
                    must!(v.get_cloned(q).is_none(), "position {q} has a value before it is written");
                    must!(v.get_raw(q).is_none(), "position {q} has a raw value before it is written");
                }
                Tk::new(i)
            });
        }
    });
}
fn bounded<P>(v: ConcurrentVec<Tk, P>, cap: usize, begin: usize, n: usize)
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>,
{
    must_eq!(v.maximum_capacity(), cap, "maximum capacity");
    for i in 0..begin {
        v.push(Tk::new(i as i64));
    }
    let r = match (begin + n) % 3 {
        0 => try_run(|| v.extend(tks((begin..begin + n).map(|x| x as i64)))),
        1 => try_run(|| v.extend_n_items((begin..).map(|x| Tk::new(x as i64)), n)),
        _ => try_run(|| v.extend_for_idx(|b| tks((b..b + n).map(|x| x as i64)), n)),
    };
    must_eq!(r.is_ok(), begin + n <= cap || n == 0, "whether a batch of {n} at {begin} succeeds with maximum capacity {cap}");
    let len = if r.is_ok() { begin + n } else { begin };
    must_eq!(content(&v), (0..len as i64).collect::<Vec<_>>(), "content");
    must!(v.capacity() <= cap, "capacity {} exceeds the maximum {cap}", v.capacity());
    for i in len..cap + 4 {
        must!(v.get(i).is_none() && v.get_cloned(i).is_none(), "there is a value at {i}");
    }
}

/// a thread that stalls inside its value closure does not keep others from growing
pub fn c02_stall(cx: &mut Cx) {
    let m = if cfg!(miri) { 6 } else { 26 };
    let _ = &cx;
    for at in 0..m {
        for how in 0..3 {
            kinds!(Tk, at + 60, |v, k| {
                ctx!("{k} vec, the growth op {how} at position {at} waits inside its closure until 40 more values were pushed");
                for i in 0..at {
                    v.push(Tk::new(i as i64));
                }
                let (started, go) = (AtomicBool::new(false), AtomicBool::new(false));
                let extra = if cfg!(miri) { 10 } else { 40 };
                par(2, |t| {
                    if t == 0 {
                        let wait = |i: usize| {
                            must_eq!(i, at, "position given to the closure");
                            started.store(true, SeqCst);
                            wait_for(&go);
                        };
                        match how {
                            0 => v.push_for_idx(|i| {
                                wait(i);
                                Tk::new(-1)
                            }),
                            1 => v.extend_for_idx(
                                |i| {
                                    wait(i);
                                    tks([-1, -2, -3])
                                },
                                3,
                            ),
                            _ => v.extend_n_items(
                                (0..3).map(|j| {
                                    if j == 0 {
                                        wait(at);
                                    }
                                    Tk::new(-1 - j)
                                }),
                                3,
                            ),
                        };
                    } else {
                        wait_for(&started);
                        for i in 0..extra {
                            v.push(Tk::new(1000 + i as i64));
                        }
                        must_eq!(v.len(), at, "length while position {at} is not written");
                        go.store(true, SeqCst);
                    }
                });
                let w = if how == 0 { 1 } else { 3 };
                must_eq!(v.len(), at + w + extra, "length");
                for i in 0..w {
                    must_eq!(v[at + i].map(|x| x.get()), -1 - i as i64, "value of the stalled op");
                }
                for i in 0..extra {
                    must_eq!(v[at + w + i].map(|x| x.get()), 1000 + i as i64, "value pushed meanwhile");
                }
            });
        }
    }
    // the closures may grow the same vec
    for at in 0..m {
        kinds!(Tk, at + 40, |v, k| {
            ctx!("{k} vec, push_for_idx at {at} whose closure pushes to the same vec; then extend_for_idx and extend_n_items likewise");
            for i in 0..at {
                v.push(Tk::new(i as i64));
            }
            let r = v.push_for_idx(|i| {
                must_eq!(v.push(Tk::new(-5)), i + 1, "position of the inner push");
                must_eq!(v.push(Tk::new(-6)), i + 2, "position of the inner push");
                Tk::new(-4)
            });
            must_eq!(r, at, "position of the outer push");
            let r = v.extend_for_idx(
                |i| {
                    must_eq!(v.extend(tks([-9, -10])), i + 2, "position of the inner extend");
                    tks([-7, -8])
                },
                2,
            );
            must_eq!(r, at + 3, "position of the outer extend");
            let mut n = 0;
            let r = v.extend_n_items(
                (0..2).map(|j| {
                    n += 1;
                    v.push(Tk::new(-13 - j));
                    Tk::new(-11 - j)
                }),
                2,
            );
            must_eq!(r, at + 7, "position of the outer extend");
            must_eq!(content(&v)[at..], (4..15).map(|x| -x as i64).collect::<Vec<_>>()[..], "content");
        });
    }
}

/// many short races for the growth step
pub fn c02_race(cx: &mut Cx) {
    for round in 0..cx.reps(400, 3) {
        let th = cx.threads(2 + round % 7);
        let seed = cx.rng.next();
        let pre = cx.rng.below(14);
        kinds!(usize, pre + th * 14, |v, k| {
            ctx!("{k} vec, {pre} values, then {th} threads grow once each, seed {seed}");
            v.extend(0..pre);
            let got = par(th, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                let n = 1 + r.below(13);
                let val = 100 + t;
                (if n == 1 { v.push(val) } else { v.extend(vec![val; n]) }, n, val)
            });
            let total = pre + got.iter().map(|x| x.1).sum::<usize>();
            must_eq!(v.len(), total, "length");
            must!(v.capacity() >= total && v.capacity() <= v.maximum_capacity(), "capacity {}", v.capacity());
            for (i, n, val) in got {
                for q in i..i + n {
                    must_eq!(v.get_copied(q), Some(val), "value at {q}");
                }
            }
            must_eq!(v.clone_to_vec().len(), total, "number of values");
        });
    }
}

// ------------------------------------------------------------------ C03
/// a gap bounds the length; it is complete as soon as the gap closes
pub fn c03_gap(cx: &mut Cx) {
    let m = if cfg!(miri) { 5 } else { 20 };
    let _ = &cx;
    for at in 0..m {
        for later in [0usize, 1, 3, 9] {
            kinds!(Tk, at + later + 4, |v, k| {
                ctx!("{k} vec, {at} values, an unfinished push, {later} later values");
                for i in 0..at {
                    v.push(Tk::new(i as i64));
                    must_eq!(v.len(), i + 1, "length after {} pushes", i + 1);
                }
                v.push_for_idx(|i| {
                    for j in 0..later {
                        v.push(Tk::new(100 + j as i64));
                        must_eq!(v.len(), at, "length while position {at} is not written");
                        must_eq!(v.is_empty(), at == 0, "is_empty");
                        must_eq!(v.iter().count(), at, "number of iterated elements");
                    }
                    // the later ones are there all the same
                    for j in 0..later {
                        must_eq!(v.get_cloned(at + 1 + j).map(|x| x.get()), Some(100 + j as i64), "later value");
                        must!(v.get(at + 1 + j).is_none(), "an element beyond the length was returned");
                    }
                    // reads in progress do not disturb the length
                    if at > 0 {
                        v[at / 2].map(|_| must_eq!(v.len(), at, "length while an element is read"));
                    }
                    Tk::new(i as i64)
                });
                must_eq!(v.len(), at + 1 + later, "length after the gap is closed");
                must!(!v.is_empty(), "is_empty");
            });
        }
    }
    // length is not disturbed by accesses in progress, at any position, also if never observed before
    for n in 1..m {
        for p in 0..n {
            for how in 0..6 {
                kinds!(Tk, n + 2, |v, k| {
                    ctx!("{k} vec of {n} elements, access {how} of element {p} in progress");
                    v.extend(tks(0..n as i64));
                    if how % 2 == 1 {
                        v.len();
                        v.push(Tk::new(n as i64));
                    }
                    let want = if how % 2 == 1 { n + 1 } else { n };
                    let chk = || {
                        must_eq!(v.len(), want, "length");
                        must!(!v.is_empty(), "is_empty");
                    };
                    // element handle obtained without asking for the length
                    let e = unsafe_elem(&v, p);
                    match how / 2 {
                        0 => e.map(|_| chk()),
                        1 => e.update(|_| chk()),
                        _ => {
                            struct Q<'a>(&'a dyn Fn());
                            impl Drop for Q<'_> {
                                fn drop(&mut self) {
                                    (self.0)()
                                }
                            }
                            e.map(|_| drop(Q(&chk)))
                        }
                    }
                    chk();
                });
            }
        }
    }
}
/// an element reference that does not need the length to be known
fn unsafe_elem<P>(v: &ConcurrentVec<Tk, P>, p: usize) -> &ConcurrentElement<Tk>
where
    P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>,
{
    &v[p]
}

pub fn c03_clone_hold(cx: &mut Cx) {
    // get_cloned holds the element while the user's clone runs; the length must not shrink
    use std::cell::Cell;
    thread_local! { static HOOK: Cell<Option<(usize, fn(usize))>> = const { Cell::new(None) }; }
    static V: Mutex<Option<&'static (dyn Fn() -> usize + Sync + Send)>> = Mutex::new(None);
    #[derive(Debug)]
    struct C(usize);
    impl Clone for C {
        fn clone(&self) -> Self {
            if let Some((n, f)) = HOOK.with(|h| h.get()) {
                f(n);
            }
            C(self.0)
        }
    }
    fn hook(n: usize) {
        let f = *lock(&V);
        if let Some(f) = f {
            must_eq!(f(), n, "length while an element is being cloned");
        }
    }
    let _ = &cx;
    for n in 1..if cfg!(miri) { 4 } else { 12 } {
        for p in 0..n {
            ctx!("doubling vec of {n} elements whose length was never asked, get_cloned({p}) asks it while cloning");
            let v: &'static ConcurrentVec<C> = Box::leak(Box::new(ConcurrentVec::new()));
            v.extend((0..n).map(C));
            let f: &'static (dyn Fn() -> usize + Sync + Send) = Box::leak(Box::new(move || v.len()));
            *lock(&V) = Some(f);
            HOOK.with(|h| h.set(Some((n, hook))));
            let c = v.get_cloned(p);
            HOOK.with(|h| h.set(None));
            must_eq!(c.map(|c| c.0), Some(p), "cloned value");
            must_eq!(v.len(), n, "length");
        }
    }
}

/// monotone for every observer, never beyond what is written
pub fn c03_par(cx: &mut Cx) {
    for round in 0..cx.reps(40, 1) {
        let th = cx.threads(2 + round % 4);
        let n = if cfg!(miri) { 5 } else { 200 };
        let seed = cx.rng.next();
        let (done, last) = (AtomicUsize::new(0), AtomicUsize::new(0));
        let begun = AtomicUsize::new(0);
        kinds!(usize, th * n, |v, k| {
            ctx!("{k} vec, {th} pushing threads, observers of the length and of elements, seed {seed}");
            done.store(0, SeqCst);
            last.store(0, SeqCst);
            begun.store(0, SeqCst);
            par(th + 3, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                if t < th {
                    for _ in 0..n {
                        begun.fetch_add(1, SeqCst);
                        v.push_for_idx(|i| {
                            jitter(&mut r);
                            i
                        });
                    }
                    done.fetch_add(1, SeqCst);
                } else if t < th + 2 {
                    loop {
                        let fin = done.load(SeqCst) == th;
                        let before = last.load(SeqCst);
                        let len = v.len();
                        let b = begun.load(SeqCst);
                        must!(len >= before, "length {len} after another thread had observed {before}");
                        must!(len <= b, "length {len} but only {b} pushes were begun");
                        last.fetch_max(len, SeqCst);
                        if len > 0 {
                            let p = r.below(len);
                            must_eq!(v.get_copied(p), Some(p), "value at {p}, below the length {len}");
                            must!(v.get(p).is_some() && v.get(len - 1).is_some(), "no element at {p} or {}, below the length {len}", len - 1);
                            must!(!v.is_empty(), "is_empty with length {len}");
                        }
                        if fin {
                            must_eq!(len, th * n, "length after all pushes");
                            break;
                        }
                    }
                } else {
                    // element accesses in progress all the time
                    while done.load(SeqCst) < th {
                        let l = last.load(SeqCst);
                        if l > 0 {
                            let p = if r.chance(1, 2) { l - 1 } else { r.below(l) };
                            v[p].map(|x| must_eq!(*x, p, "value"));
                            v[p].update(|x| must_eq!(*x, p, "value"));
                        }
                        jitter(&mut r);
                    }
                }
            });
            must_eq!(v.len(), th * n, "length at the end");
        });
    }
}

/// all writers done (some while reads of the last elements are in progress): the length is complete
pub fn c03_quiescent(cx: &mut Cx) {
    for round in 0..cx.reps(300, 2) {
        let th = cx.threads(2 + round % 3);
        let n = 1 + cx.rng.below(6);
        let seed = cx.rng.next();
        let pushed = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        kinds!(usize, th * n, |v, k| {
            ctx!("{k} vec, {th} threads push {n} values each; then the length is asked while elements are accessed; seed {seed}");
            pushed.store(0, SeqCst);
            stop.store(false, SeqCst);
            par(th + 2, |t| {
                if t < th {
                    for i in 0..n {
                        v.push(i);
                    }
                    pushed.fetch_add(1, SeqCst);
                } else if t == th {
                    while pushed.load(SeqCst) < th {
                        std::thread::yield_now();
                    }
                    for _ in 0..if cfg!(miri) { 3 } else { 30 } {
                        must_eq!(v.len(), th * n, "length after all pushes returned");
                    }
                    stop.store(true, SeqCst);
                } else {
                    let mut r = Rng::new(seed);
                    while !stop.load(SeqCst) {
                        if let Some(x) = v.get_cloned(r.below(th * n)) {
                            must!(x < n, "value");
                        }
                    }
                }
            });
        });
    }
    // after clear the count starts again
    for n in 0..if cfg!(miri) { 5 } else { 20 } {
        for m in 0..=n + 2 {
            kinds!(usize, n + m + 2, |v, k| {
                ctx!("{k} vec: {n} values, clear, {m} values");
                v.extend(0..n);
                must_eq!(v.len(), n, "length");
                v.clear();
                must_eq!(v.len(), 0, "length after clear");
                must!(v.is_empty(), "is_empty after clear");
                for i in 0..m {
                    must_eq!(v.push(i), i, "position after clear");
                    must_eq!(v.len(), i + 1, "length after clear and {} pushes", i + 1);
                }
            });
        }
    }
    // failed growth leaves no phantom length
    for cap in 0..6usize {
        ctx!("fixed vec of capacity {cap}, pushed beyond it several times");
        let v: ConcurrentVec<usize, FixedVec<_>> = ConcurrentVec::with_fixed_capacity(cap);
        for i in 0..cap {
            v.push(i);
        }
        for _ in 0..3 {
            must!(panics(|| v.push(7)), "push beyond the capacity must panic");
            must_eq!(v.len(), cap, "length");
            must_eq!(v.is_empty(), cap == 0, "is_empty");
        }
    }
}
