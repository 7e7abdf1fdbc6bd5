//! Every operation while another thread is in the middle of an access of one of the elements.
use crate::util::*;
use orx_concurrent_vec::*;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;

/// both halves are equal unless the value is torn
#[derive(Copy)]
pub struct Pr([i64; 2]);
impl Pr {
    fn new(x: i64) -> Self {
        Pr([x, x])
    }
    fn get(&self) -> i64 {
        let a = unsafe { std::ptr::read_volatile(&self.0[0]) };
        let b = unsafe { std::ptr::read_volatile(&self.0[1]) };
        must!(a == b, "torn value: {a} / {b}");
        a
    }
}
impl Clone for Pr {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> Self {
        Pr::new(self.get())
    }
}
impl PartialEq for Pr {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl std::fmt::Debug for Pr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.get())
    }
}
const N: usize = 6;
const UP: i64 = 100;
fn pause() {
    std::thread::sleep(Duration::from_micros(if cfg!(miri) { 1 } else { 900 }));
}
/// runs `op` while element `k` is in the middle of an update which adds UP (`write`) or of a read
fn during<P: IntoConcurrentPinnedVec<ConcurrentElement<Pr>> + Sync, R>(v: &ConcurrentVec<Pr, P>, k: usize, write: bool, op: impl FnOnce() -> R) -> R
where
    ConcurrentVec<Pr, P>: Sync,
{
    let inside = AtomicBool::new(false);
    std::thread::scope(|s| {
        let h = s.spawn(|| {
            if write {
                v[k].update(|x| {
                    unsafe { std::ptr::write_volatile(&mut x.0[0], x.0[0] + UP) };
                    inside.store(true, SeqCst);
                    pause();
                    unsafe { std::ptr::write_volatile(&mut x.0[1], x.0[1] + UP) };
                });
            } else {
                v[k].map(|x| {
                    let a = x.get();
                    inside.store(true, SeqCst);
                    pause();
                    must_eq!(x.get(), a, "value during a read");
                });
            }
        });
        wait_for(&inside);
        let r = op();
        if h.join().is_err() {
            fail(&format!("a thread panicked: {}", last_panic()));
        }
        r
    })
}
/// the values of positions `from..to` as seen by an access of which element `k` was being updated
fn seen(got: &[i64], from: usize, to: usize, k: usize, what: &str) {
    let w = |up: i64| (from..to).map(|i| i as i64 + if i == k { up } else { 0 }).collect::<Vec<_>>();
    must!(got == w(0) || got == w(UP), "{what}: got {got:?}, expected {:?} or {:?}", w(0), w(UP));
}
fn reset<P: IntoConcurrentPinnedVec<ConcurrentElement<Pr>>>(v: &ConcurrentVec<Pr, P>) {
    for i in 0..N {
        v[i].set(Pr::new(i as i64));
    }
}
macro_rules! busy {
    (|$v:ident, $k:ident| $b:block) => {{
        kinds!(Pr, N + 3, |$v, kind| {
            $v.extend((0..N as i32).map(|x| Pr::new(x as i64)));
            let ks: &[usize] = if cfg!(miri) { &[1] } else { &[0, 2, N - 1] };
            for &$k in ks {
                ctx!("{kind} vec of {N} values, element {} is being accessed by another thread", $k);
                $b
            }
        });
    }};
}
/// reads of a vec or slice which denotes the positions `from..to`
macro_rules! reads {
    ($v:expr, $k:expr, $x:expr, $from:expr, $to:expr, $n:expr, [$(($what:expr, |$y:ident| $e:expr),)*]) => {{
        $(
            reset($v);
            let $y = &$x;
            let got: Vec<i64> = during($v, $k, true, || $e);
            seen(&got, $from, $to, $k, &format!("{} of {}", $what, $n));
        )*
    }};
}
pub fn c04(_: &mut Cx) {
    busy!(|v, k| {
        let v = &v;
        reads!(v, k, v, 0, N, "the vec", [
            ("get_cloned", |y| (0..N).filter_map(|i| y.get_cloned(i)).map(|x| x.get()).collect()),
            ("get_copied", |y| (0..N).filter_map(|i| y.get_copied(i)).map(|x| x.get()).collect()),
            ("get", |y| (0..N).filter_map(|i| y.get(i)).map(|x| x.map(|x| x.get())).collect()),
            ("index", |y| (0..N).map(|i| y[i].cloned().get()).collect()),
        ]);
        reads!(v, k, v.slice(1..N), 1, N, "a slice", [
            ("get_cloned", |y| (0..N).filter_map(|i| y.get_cloned(i)).map(|x| x.get()).collect()),
            ("get_copied", |y| (0..N).filter_map(|i| y.get_copied(i)).map(|x| x.get()).collect()),
            ("get", |y| (0..N).filter_map(|i| y.get(i)).map(|x| x.map(|x| x.get())).collect()),
            ("index", |y| (0..N - 1).map(|i| y[i].cloned().get()).collect()),
        ]);
    });
}
pub fn c05(_: &mut Cx) {
    busy!(|v, k| {
        let v = &v;
        reads!(v, k, v, 0, N, "the elements", [
            ("cloned", |y| (0..N).map(|i| y[i].cloned().get()).collect()),
            ("copied", |y| (0..N).map(|i| y[i].copied().get()).collect()),
            ("map", |y| (0..N).map(|i| y[i].map(|x| x.get())).collect()),
            ("update", |y| (0..N).map(|i| { let mut a = 0; y[i].update(|x| a = x.get()); a }).collect()),
        ]);
        let b = k as i64;
        for write in [true, false] {
            let up = if write { UP } else { 0 };
            reset(v);
            let old = during(v, k, write, || v[k].replace(Pr::new(7))).get();
            let now = v[k].cloned().get();
            must!((old, now) == (b + up, 7) || (old, now) == (b, 7 + up), "replace: displaced {old}, left {now}");
            reset(v);
            during(v, k, write, || v[k].set(Pr::new(7)));
            let now = v[k].cloned().get();
            must!(now == 7 || now == 7 + up, "set: left {now}");
            reset(v);
            during(v, k, write, || v[k].update(|x| *x = Pr::new(x.get() + 1)));
            must_eq!(v[k].cloned().get(), b + up + 1, "update");
            must_eq!(v.len(), N, "len");
        }
    });
}
pub fn c08(_: &mut Cx) {
    busy!(|v, k| {
        let v = &v;
        for write in [true, false] {
            let up = if write { UP } else { 0 };
            for j in [0, 1, 3, N - 1] {
                for slice in [false, true] {
                    for (i, j) in [(k, j), (j, k)] {
                        reset(v);
                        let r = during(v, k, write, || if slice { v.slice(..).swap(i, j) } else { v.swap(i, j) });
                        must!(r, "swap({i}, {j}) of valid indices");
                        let got: Vec<i64> = v.iter_cloned().map(|x| x.get()).collect();
                        // before or after the update
                        let w = |first: bool| {
                            let mut x: Vec<i64> = (0..N as i64).collect();
                            if first { x[k] += up }
                            x.swap(i, j);
                            if !first { x[k] += up }
                            x
                        };
                        must!(got == w(true) || got == w(false), "swap({i}, {j}): got {got:?}, expected {:?} or {:?}", w(true), w(false));
                    }
                }
            }
        }
    });
}
pub fn c09(_: &mut Cx) {
    busy!(|v, k| {
        let v = &v;
        for write in [true, false] {
            let up = if write { UP } else { 0 };
            for what in ["fill", "fill_with", "fill of a slice", "fill_with of a slice"] {
                reset(v);
                let slice = what.ends_with("slice");
                let from = if slice { 1 } else { 0 };
                during(v, k, write, || match what {
                    "fill" => v.fill(Pr::new(50)),
                    "fill_with" => v.fill_with(|i| Pr::new(50 + i as i64)),
                    "fill of a slice" => v.slice(1..).fill(Pr::new(50)),
                    _ => v.slice(1..).fill_with(|i| Pr::new(50 + i as i64)),
                });
                let got: Vec<i64> = v.iter_cloned().map(|x| x.get()).collect();
                let w = |u: i64| (0..N).map(|i| {
                    let x = if i < from { i as i64 } else if what.contains("with") { 50 + (i - from) as i64 } else { 50 };
                    x + if i == k && (i < from || u > 0) { up } else { 0 }
                }).collect::<Vec<_>>();
                must!(got == w(0) || got == w(1), "{what}: got {got:?}, expected {:?} or {:?}", w(0), w(1));
            }
        }
    });
}
macro_rules! c10_reads {
    ($v:expr, $k:expr, $x:expr, $from:expr, $to:expr, $n:expr) => {
        reads!($v, $k, $x, $from, $to, $n, [
            ("iter", |y| y.iter().map(|e| e.map(|x| x.get())).collect()),
            ("iter_cloned", |y| y.iter_cloned().map(|x| x.get()).collect()),
            ("map", |y| y.map(|x| x.get()).collect()),
            ("filter", |y| { let mut a = vec![]; let n = y.filter(|x| { a.push(x.get()); true }).count(); must_eq!(n, a.len(), "filter"); a }),
            ("fold", |y| y.fold(vec![], |mut a, x| { a.push(x.get()); a })),
            ("reduce", |y| { let mut a = vec![]; y.reduce(|p, x| { if a.is_empty() { a.push(p.get()) } a.push(x.get()); *x }); a }),
            ("clone_to_vec", |y| y.clone_to_vec().iter().map(|x| x.get()).collect()),
        ]);
        let (from, to, k): (usize, usize, usize) = ($from, $to, $k);
        for i in from..to {
            for q in [0, UP] {
                let q = i as i64 + q;
                reset($v);
                let x = &$x;
                let got = during($v, k, true, || if i % 2 == 0 { x.index_of(&Pr::new(q)) } else { x.contains(&Pr::new(q)).then_some(i - from) });
                let can: &[Option<usize>] = if i == k { &[None, Some(i - from)] } else if q < UP { &[Some(i - from)] } else { &[None] };
                must!(can.contains(&got), "index_of or contains of {q} of {}: got {got:?}, expected {can:?}", $n);
            }
        }
    };
}
pub fn c10(_: &mut Cx) {
    busy!(|v, k| {
        let v = &v;
        c10_reads!(v, k, v, 0, N, "the vec");
        c10_reads!(v, k, v.slice(1..N), 1, N, "a slice");
    });
}
pub fn c11(_: &mut Cx) {
    let v: ConcurrentVec<Pr> = ConcurrentVec::new();
    v.extend((0..N as i32).map(|x| Pr::new(x as i64)));
    let w: ConcurrentVec<Pr> = ConcurrentVec::new();
    w.extend((0..N as i32).map(|x| Pr::new(x as i64)));
    let v = &v;
    for k in [0, 2, N - 1] {
        ctx!("vec of {N} values, element {k} is being accessed by another thread");
        let dbg = |s: String| s.trim_matches(['[', ']']).split(", ").map(|x| x.parse().unwrap_or(-1)).collect::<Vec<i64>>();
        reads!(v, k, v, 0, N, "the vec", [("Debug", |y| dbg(format!("{y:?}"))),]);
        reads!(v, k, v.slice(1..), 1, N, "a slice", [("Debug", |y| dbg(format!("{y:?}"))),]);
        let plain: [Pr; N] = std::array::from_fn(|i| Pr::new(i as i64));
        for write in [true, false] {
            for o in 0..8 {
                reset(v);
                let r = during(v, k, write, || match o {
                    0 => *v == w,
                    1 => w == *v,
                    2 => v.as_slice() == w,
                    3 => w == v.as_slice(),
                    4 => *v == plain,
                    5 => v.as_slice() == plain,
                    6 => v[k] == w[k] && w[k] == v[k],
                    _ => v[k] == plain[k],
                });
                // an update in progress: before it equal, after it different
                must!(r || write, "comparison {o} of equal values: {r}");
                let same = during(v, k, write, || match o {
                    0 => *v == *v,
                    1 => v.as_slice() == *v,
                    2 => v.slice(1..) == v.slice(1..),
                    _ => v[k] == v[k],
                });
                must!(same || o < 3, "comparison of an element with itself");
            }
        }
        for (i, j) in [(k, 0), (0, k), (k, 3)] {
            reset(v);
            let r = during(v, k, true, || v[i] == v[j]);
            must_eq!(r, i == j, "element {i} == element {j}");
        }
    }
}
pub fn c12(_: &mut Cx) {
    let v: ConcurrentVec<Pr> = ConcurrentVec::new();
    v.extend((0..N as i32).map(|x| Pr::new(x as i64)));
    let v = &v;
    for k in 0..N {
        ctx!("vec of {N} values, element {k} is being accessed by another thread");
        reads!(v, k, v, 0, N, "the vec", [("clone", |y| (*y).clone().to_vec().iter().map(|x| x.get()).collect()),]);
    }
}
pub fn c14(_: &mut Cx) {
    busy!(|v, k| {
        let v = &v;
        // the accesses which hand out &mut wait for the others: no element is missing, and none is torn
        for write in [true, false] {
            macro_rules! refs {
                ($x:expr, $from:expr, $n:expr) => {{
                    for o in 0..3 {
                        reset(v);
                        let x = &$x;
                        // the pointers are compared, not read: the other thread may still be at work
                        let got: Vec<(usize, usize)> = during(v, k, write, || match o {
                            0 => unsafe { x.iter_mut() }.enumerate().map(|(i, r)| (i, r as *mut Pr as usize)).collect(),
                            1 => (0..N + 2).filter_map(|i| unsafe { x.get_mut(i) }.map(|r| (i, r as *mut Pr as usize))).collect(),
                            _ => (0..N + 2).rev().filter_map(|i| unsafe { x.get_mut(i) }.map(|r| (i, r as *mut Pr as usize))).collect::<Vec<_>>().into_iter().rev().collect(),
                        });
                        let want: Vec<(usize, usize)> = ($from..N).map(|i| v[i].map(|r| (i - $from, r as *const Pr as usize))).collect();
                        must_eq!(got, want, "positions and addresses given by {} of {}, write: {write}", ["iter_mut", "get_mut", "get_mut in reverse"][o], $n);
                    }
                }};
            }
            refs!(*v, 0, "the vec");
            refs!(v.as_slice(), 0, "as_slice");
            refs!(v.slice(1..), 1, "a slice");
        }
    });
}
