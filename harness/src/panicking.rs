//! C16: user code that panics, failed growth
use crate::util::*;
use orx_concurrent_vec::*;
use std::cell::Cell;

thread_local! { static BOMB: Cell<i64> = const { Cell::new(-1) }; }
/// counts down; panics at zero
fn tick() {
    BOMB.with(|b| {
        let x = b.get();
        if x >= 0 {
            b.set(x - 1);
            if x == 0 {
                panic!("bomb");
            }
        }
    })
}
fn arm(n: i64) {
    BOMB.with(|b| b.set(n))
}
struct B(Tk);
impl B {
    fn new(i: i64) -> B {
        B(Tk::new(i))
    }
}
impl Clone for B {
    fn clone(&self) -> B {
        tick();
        B(self.0.clone())
    }
}
impl PartialEq for B {
    fn eq(&self, o: &B) -> bool {
        tick();
        self.0 == o.0
    }
}
impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        tick();
        write!(f, "{:?}", self.0)
    }
}
fn bc<P: IntoConcurrentPinnedVec<ConcurrentElement<B>>>(v: &ConcurrentVec<B, P>) -> Vec<i64> {
    v.iter().map(|e| e.map(|x| x.0.get())).collect()
}

/// every element can still be read, updated, swapped, and the vec still grows
fn usable<P: IntoConcurrentPinnedVec<ConcurrentElement<B>>>(v: &ConcurrentVec<B, P>, want: &[i64]) {
    must_eq!(bc(v), want, "content after the panic");
    for i in 0..want.len() {
        must_eq!(v.get_cloned(i).map(|x| x.0.get()), Some(want[i]), "get_cloned({i}) after the panic");
        must_eq!(v[i].replace(B::new(want[i])).0.get(), want[i], "replace at {i} after the panic");
        v[i].update(|x| must_eq!(x.0.get(), want[i], "update at {i} after the panic"));
    }
    if want.len() > 1 {
        must!(v.swap(0, want.len() - 1), "swap after the panic");
        must!(v.swap(0, want.len() - 1), "swap after the panic");
    }
    must_eq!(v.slice(..).len(), want.len(), "slice after the panic");
}

pub fn c16_ops(cx: &mut Cx) {
    let m = if cfg!(miri) { 4 } else { 12 };
    let _ = &cx;
    const N: usize = 17;
    for n in 1..m {
        for bomb in 0..n as i64 + 1 {
            for op in 0..N {
                kinds!(B, n + 3, |v, k| {
                    ctx!("{k} vec of {n} elements, operation {op} whose user code panics at its call {bomb}");
                    arm(-1);
                    v.extend((0..n as i64).map(B::new).collect::<Vec<_>>());
                    let before = live();
                    let f = |x: &B| {
                        tick();
                        x.0.get()
                    };
                    arm(bomb);
                    let mut filled = 0;
                    let p = panics(|| match op {
                        0 => drop(v.map(f).collect::<Vec<_>>()),
                        1 => drop(v.filter(|x| f(x) % 2 == 0).count()),
                        2 => drop(v.fold(0, |a, x| a + f(x))),
                        3 => drop(v.reduce(|a, x| {
                            tick();
                            B::new(a.0.get() + x.0.get())
                        })),
                        4 => drop(v.clone_to_vec()),
                        5 => drop(v.iter_cloned().collect::<Vec<_>>()),
                        6 => drop(v.index_of(&B::new(-1))),
                        7 => drop(v.contains(&B::new(-1))),
                        8 => drop(format!("{v:?}")),
                        9 => v.fill_with(|i| {
                            tick();
                            filled = i + 1;
                            B::new(1000 + i as i64)
                        }),
                        10 => {
                            for i in 0..n {
                                v[i].update(|x| {
                                    tick();
                                    x.0.put(x.0.get());
                                })
                            }
                        }
                        11 => {
                            for i in 0..n {
                                v[i].map(f);
                            }
                        }
                        12 => {
                            for i in 0..n {
                                v[i].cloned();
                                v.get_cloned(i);
                            }
                        }
                        13 => drop(v.slice(..).map(f).collect::<Vec<_>>()),
                        14 => drop(v.slice(1..).reduce(|a, x| {
                            tick();
                            B::new(a.0.get() + x.0.get())
                        })),
                        15 => drop(v[0] == v[n - 1] || v[n - 1] == v[0] || v[0] == v[0] || v[0] == B::new(-1)),
                        _ => drop((v.slice(..).index_of(&B::new(-1)), format!("{:?}", v.slice(..)))),
                    });
                    let _ = p;
                    arm(-1);
                    let mut want: Vec<i64> = (0..n as i64).collect();
                    if op == 9 {
                        for i in 0..filled {
                            want[i] = 1000 + i as i64;
                        }
                    }
                    must_eq!(live(), before, "number of values alive after the panic");
                    usable(&v, &want);
                    must_eq!(v.push(B::new(55)), n, "position of the push after the panic");
                    must_eq!(v.extend([B::new(56), B::new(57)]), n + 1, "position of the extend after the panic");
                    want.extend([55, 56, 57]);
                    must_eq!(bc(&v), want, "content after the panic and growth");
                    must_eq!(v.to_vec().iter().map(|x| x.0.get()).collect::<Vec<_>>(), want, "owned content");
                });
                must_eq!(live(), 0, "number of values alive at the end");
            }
        }
    }
    // fill whose clone panics
    for n in 1..m {
        for bomb in 0..n as i64 + 1 {
            kinds!(B, n, |v, k| {
                ctx!("{k} vec of {n} elements, fill whose value panics when cloned for the {bomb}. time");
                arm(-1);
                v.extend((0..n as i64).map(B::new).collect::<Vec<_>>());
                let before = live();
                let x = B::new(99);
                arm(bomb);
                let _ = panics(|| v.fill(x));
                arm(-1);
                must_eq!(live(), before, "number of values alive after the panic");
                let c = bc(&v);
                let done = c.iter().take_while(|x| **x == 99).count();
                must!(c[done..] == (done as i64..n as i64).collect::<Vec<_>>()[..], "content after the panic: {c:?}");
                usable(&v, &c);
            });
            must_eq!(live(), 0, "number of values alive at the end");
        }
    }
}

/// panics in the closures and iterators of growth operations
pub fn c16_grow(cx: &mut Cx) {
    let m = if cfg!(miri) { 6 } else { 22 };
    let _ = &cx;
    for at in 0..m {
        for op in 0..6 {
            for bomb in 0..if op == 0 { 1 } else { 4i64 } {
                kinds!(B, at + 60, |v, k| {
                    ctx!("{k} vec of {at} elements, growth op {op} panics at its user call {bomb}; then 40 values are pushed");
                    arm(-1);
                    v.extend((0..at as i64).map(B::new).collect::<Vec<_>>());
                    let it = || {
                        (0..4i32).map(|i| {
                            tick();
                            B::new(500 + i as i64)
                        })
                    };
                    arm(bomb);
                    let r = panics(|| match op {
                        0 => v.push_for_idx(|_| {
                            tick();
                            B::new(500)
                        }),
                        1 => v.extend(it()),
                        2 => v.extend_n_items(it(), 4),
                        3 => v.extend_for_idx(|_| it(), 4),
                        4 => v.extend_for_idx(
                            |_| {
                                arm(0);
                                tick();
                                it()
                            },
                            4,
                        ),
                        _ => v.extend_for_idx(
                            // fewer values than announced
                            |_| (0..bomb).map(B::new).collect::<Vec<_>>(),
                            4,
                        ),
                    });
                    arm(-1);
                    must!(r, "the panic was swallowed");
                    let old: Vec<i64> = (0..at as i64).collect();
                    // others go on, beyond the gap and over fragment boundaries
                    let mut pos = vec![];
                    for i in 0..20 {
                        pos.push(v.push(B::new(1000 + i)));
                        pos.push(v.push_for_idx(|_| B::new(2000 + i)));
                    }
                    for (i, p) in pos.iter().enumerate() {
                        let w = if i % 2 == 0 { 1000 } else { 2000 } + i as i64 / 2;
                        must_eq!(v.get_cloned(*p).map(|x| x.0.get()), Some(w), "value pushed after the panic at {p}");
                    }
                    let c = bc(&v);
                    must!(c.len() >= at, "length {} after {at} values were pushed", c.len());
                    must_eq!(c[..at], old[..], "content before the panicking op");
                    {
                        // the values written before the panic are there; the first missing one bounds the length
                        let w = match op {
                            0 | 4 | 5 => 0,
                            _ => bomb as usize,
                        };
                        must_eq!(c.len(), at + w, "length with a gap at {}", at + w);
                        for i in 0..w {
                            must_eq!(c[at + i], 500 + i as i64, "value written before the panic");
                        }
                    }
                    must_eq!(live() as usize, c.len() + 40, "number of values alive");
                    match (at + bomb as usize) % 3 {
                        0 => {
                            let inner = v.into_inner();
                            must!(inner.len() >= at + 40, "length of the inner vec");
                            for i in 0..at {
                                must_eq!(inner[i].map(|x| x.0.get()), i as i64, "content of the inner vec");
                            }
                        }
                        1 => {
                            v.clear();
                            must_eq!(live(), 0, "number of values alive after clear");
                            must_eq!(v.len(), 0, "length after clear");
                            v.extend((0..at as i64 + 3).map(B::new).collect::<Vec<_>>());
                            must_eq!(bc(&v), (0..at as i64 + 3).collect::<Vec<_>>(), "content after clear");
                        }
                        _ => drop(v),
                    }
                });
                must_eq!(live(), 0, "number of values alive at the end");
            }
        }
    }
}

/// a thread whose value closure panics does not block the other growing threads
pub fn c16_par(cx: &mut Cx) {
    for round in 0..cx.reps(60, 2) {
        let th = cx.threads(2 + round % 6);
        let ops = if cfg!(miri) { 5 } else { 60 };
        let seed = cx.rng.next();
        kinds!(Tk, th * ops * 4, |v, k| {
            ctx!("{k} vec, {th} threads grow, some of their closures panic, seed {seed}");
            let logs = par(th, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                let mut log = vec![];
                for i in 0..ops {
                    let id = (t * ops + i) as i64;
                    match r.below(5) {
                        0 => {
                            let _ = panics(|| {
                                v.push_for_idx(|_| {
                                    jitter(&mut r);
                                    panic!("x")
                                })
                            });
                        }
                        1 => {
                            let b = r.below(3);
                            let _ = panics(|| {
                                v.extend_n_items(
                                    (0..3).map(|j| {
                                        if j == b {
                                            panic!("x")
                                        }
                                        Tk::new(-7)
                                    }),
                                    3,
                                )
                            });
                        }
                        2 => {
                            let _ = panics(|| v.extend_for_idx(|_| -> Vec<Tk> { panic!("x") }, 4));
                        }
                        3 => log.push((v.extend(tks([id, id])), id)),
                        _ => log.push((v.push(Tk::new(id)), id)),
                    }
                }
                log
            });
            for (p, id) in logs.into_iter().flatten() {
                must_eq!(v.get_cloned(p).map(|x| x.get()), Some(id), "value at {p}");
            }
            let len = v.len();
            must_eq!(content(&v).len(), len, "number of elements against the length");
        });
        must_eq!(live(), 0, "number of values alive at the end");
    }
}
/// growth beyond the maximum capacity, repeatedly and from many threads
pub fn c16_full(cx: &mut Cx) {
    for cap in 0..if cfg!(miri) { 4 } else { 10 } {
        for op in 0..5 {
            for lin in [false, true] {
                if lin && cap == 0 {
                    continue;
                }
                ctx!("{} vec, maximum capacity {}, growth op {op} beyond it", if lin { "linear" } else { "fixed" }, if lin { cap * 4 } else { cap });
                fn go<P: IntoConcurrentPinnedVec<ConcurrentElement<B>>>(mut v: ConcurrentVec<B, P>, op: usize) {
                    let cap = v.maximum_capacity();
                    v.extend((0..cap as i64).map(B::new).collect::<Vec<_>>());
                    let want: Vec<i64> = (0..cap as i64).collect();
                    for _ in 0..3 {
                        let p = panics(|| match op {
                            0 => v.push(B::new(1)),
                            1 => v.push_for_idx(|_| B::new(1)),
                            2 => v.extend(vec![B::new(1)]),
                            3 => v.extend_n_items((0..).map(B::new), 2 + cap),
                            _ => v.extend_for_idx(|_| (0..3).map(B::new).collect::<Vec<_>>(), 3),
                        });
                        must!(p, "growth beyond the maximum capacity must panic");
                        usable(&v, &want);
                        must!(v.get_cloned(cap).is_none(), "a value beyond the capacity");
                        must_eq!(live(), cap as i64, "number of values alive");
                    }
                    v.clear();
                    must_eq!(live(), 0, "number of values alive after clear");
                    v.extend((0..cap as i64).map(B::new).collect::<Vec<_>>());
                    must_eq!(v.to_vec().iter().map(|x| x.0.get()).collect::<Vec<_>>(), want, "owned content");
                }
                if lin {
                    go(ConcurrentVec::<B, SplitVec<_, Linear>>::with_linear_growth(2, cap), op);
                } else {
                    go(ConcurrentVec::<B, FixedVec<_>>::with_fixed_capacity(cap), op);
                }
                must_eq!(live(), 0, "number of values alive at the end");
            }
        }
    }
    // a request that can never fit is refused without consuming positions
    kinds!(Tk, 6, |v, k| {
        ctx!("{k} vec of 3 elements, batches of impossible size");
        v.extend(tks([1, 2, 3]));
        for n in [v.maximum_capacity() + 1, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
            must!(panics(|| v.extend_n_items((0..).map(Tk::new), n)), "extend_n_items of {n} must panic");
            must!(panics(|| v.extend_for_idx(|_| Vec::<Tk>::new(), n)), "extend_for_idx of {n} must panic");
            must_eq!(content(&v), vec![1, 2, 3], "content");
        }
        must_eq!(v.push(Tk::new(4)), 3, "position of the next push");
        must_eq!(content(&v), vec![1, 2, 3, 4], "content");
    });
    let _ = &cx;
}
