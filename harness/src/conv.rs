//! C12, C13, C14: conversions, clear and capacity, raw access
use crate::util::*;
use orx_concurrent_vec::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

fn seq(n: usize) -> Vec<i64> {
    (0..n as i64).map(|x| x * 7 + 1).collect()
}
fn fill<P: IntoConcurrentPinnedVec<ConcurrentElement<Tk>>>(v: &ConcurrentVec<Tk, P>, n: usize, how: usize) {
    match how % 3 {
        0 => {
            v.extend(tks(seq(n)));
        }
        1 => {
            for x in seq(n) {
                v.push(Tk::new(x));
            }
        }
        _ => {
            for (i, x) in seq(n).into_iter().enumerate() {
                if i % 2 == 0 {
                    v.push(Tk::new(x));
                } else {
                    v.extend([Tk::new(x)]);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C12
pub fn c12_all(cx: &mut Cx) {
    let m = if cfg!(miri) { 6 } else { 40 };
    let _ = &cx;
    for n in 0..m {
        for asked in [false, true] {
            kinds!(Tk, n, |v, k| {
                ctx!("{k} vec of {n} elements, to_vec (length asked before: {asked})");
                fill(&v, n, n);
                if asked {
                    v.len();
                }
                must_eq!(live(), n as i64, "number of values alive");
                let x = v.to_vec();
                must_eq!(ids(&x), seq(n), "to_vec");
                must_eq!(live(), n as i64, "number of values alive after to_vec");
            });
            must_eq!(live(), 0, "number of values alive at the end");
            kinds!(Tk, n, |v, k| {
                ctx!("{k} vec of {n} elements, into_iter (length asked before: {asked})");
                fill(&v, n, n + 1);
                if asked {
                    v.len();
                }
                must_eq!(v.into_iter().map(|x| x.get()).collect::<Vec<_>>(), seq(n), "into_iter");
            });
            must_eq!(live(), 0, "number of values alive at the end");
            for take in [0, 1, n / 2, n] {
                kinds!(Tk, n, |v, k| {
                    ctx!("{k} vec of {n} elements, into_iter of which {take} are taken");
                    fill(&v, n, n + 2);
                    let mut it = v.into_iter();
                    for i in 0..take.min(n) {
                        must_eq!(it.next().map(|x| x.get()), Some(seq(n)[i]), "next");
                    }
                    if take >= n {
                        must!(it.next().is_none(), "next after the last value");
                    }
                });
                must_eq!(live(), 0, "number of values alive at the end");
            }
            kinds!(Tk, n + 3, |v, k| {
                ctx!("{k} vec of {n} elements, into_inner and back");
                fill(&v, n, n);
                let (max, mut cap) = (v.maximum_capacity(), v.capacity());
                let inner = v.into_inner();
                must_eq!(inner.len(), n, "length of the inner vec");
                must_eq!(inner.iter().map(|e| e.map(|x| x.get())).collect::<Vec<_>>(), seq(n), "content of the inner vec");
                must_eq!(live(), n as i64, "number of values alive");
                let w: ConcurrentVec<Tk, _> = inner.into();
                must_eq!(w.len(), n, "length of the new vec");
                must_eq!(content(&w), seq(n), "content of the new vec");
                must_eq!(w.maximum_capacity(), max, "maximum capacity");
                must_eq!(w.push(Tk::new(5)), n, "position of a push to the new vec");
                must_eq!(w.extend(tks([6, 7])), n + 1, "position of an extend of the new vec");
                must_eq!(content(&w)[n..], [5, 6, 7], "values added to the new vec");
                must_eq!(w.get_cloned(n + 3).map(|x| x.get()), None, "beyond the length");
                let w = ConcurrentVec::from(w.into_inner());
                must_eq!(w.to_vec().len(), n + 3, "to_vec");
            });
            must_eq!(live(), 0, "number of values alive at the end");
        }
        // cloning
        ctx!("doubling vec of {n} elements, clone");
        let v: ConcurrentVec<Tk> = ConcurrentVec::new();
        fill(&v, n, n);
        let c = v.clone();
        must_eq!(content(&c), seq(n), "content of the clone");
        must_eq!(c.len(), n, "length of the clone");
        must_eq!(live(), 2 * n as i64, "number of values alive");
        must_eq!(c.push(Tk::new(3)), n, "position of a push to the clone");
        for i in 0..n {
            c[i].set(Tk::new(-1));
        }
        must_eq!(content(&v), seq(n), "content of the original after changes of the clone");
        must_eq!(v.push(Tk::new(4)), n, "position of a push to the original");
        must_eq!(content(&c)[n..], [3], "content of the clone after a push to the original");
        must_eq!(ids(&v.clone_to_vec())[..n], seq(n), "clone_to_vec");
        drop(v);
        must_eq!(live(), n as i64 + 1, "number of values alive after dropping the original");
        drop(c);
        must_eq!(live(), 0, "number of values alive at the end");
        // collecting, with exact, inexact and unbounded size hints
        struct Hint<I>(I, (usize, Option<usize>));
        impl<I: Iterator> Iterator for Hint<I> {
            type Item = I::Item;
            fn next(&mut self) -> Option<I::Item> {
                self.0.next()
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.1
            }
        }
        for h in [(n, Some(n)), (0, None), (n, None), (0, Some(n)), (n / 2, Some(n + 5)), (0, Some(usize::MAX)), (n, Some(n + 1))] {
            ctx!("collect of {n} values with the size hint {h:?}");
            let v: ConcurrentVec<Tk> = Hint(tks(seq(n)).into_iter(), h).collect();
            must_eq!(v.len(), n, "length");
            must_eq!(content(&v), seq(n), "content");
            must_eq!(v.push(Tk::new(1)), n, "position of the next push");
            must_eq!(v.to_vec().len(), n + 1, "to_vec");
            must_eq!(live(), 0, "number of values alive at the end");
        }
        // from storages
        ctx!("from a SplitVec and a FixedVec with {n} elements");
        let mut s: SplitVec<ConcurrentElement<Tk>, Doubling> = SplitVec::new();
        let mut f: FixedVec<ConcurrentElement<Tk>> = FixedVec::new(n + 2);
        let mut l: SplitVec<ConcurrentElement<Tk>, Linear> = SplitVec::with_linear_growth_and_fragments_capacity(2, n / 4 + 2);
        let a: ConcurrentVec<Tk> = tks(seq(n)).into_iter().collect();
        for e in a.into_inner() {
            s.push(e);
        }
        let a: ConcurrentVec<Tk> = tks(seq(n)).into_iter().collect();
        for e in a.into_inner() {
            f.push(e);
        }
        let a: ConcurrentVec<Tk> = tks(seq(n)).into_iter().collect();
        for e in a.into_inner() {
            l.push(e);
        }
        let (s, f, l) = (ConcurrentVec::from(s), ConcurrentVec::from(f), ConcurrentVec::from(l));
        macro_rules! chk { ($($v:ident)*) => { $({
            must_eq!($v.len(), n, "length");
            must_eq!(content(&$v), seq(n), "content");
            must_eq!($v.push(Tk::new(2)), n, "position of a push");
            must!($v.get_cloned(n + 1).is_none(), "value beyond the length");
            must_eq!($v.into_iter().map(|x| x.get()).collect::<Vec<_>>(), seq(n).into_iter().chain([2]).collect::<Vec<_>>(), "into_iter");
        })* } }
        chk!(s f l);
        must_eq!(live(), 0, "number of values alive at the end");
    }
    // empty
    macro_rules! empty { ($($v:expr),*) => { $({
        ctx!("{}", stringify!($v));
        let v = $v;
        must_eq!(v.len(), 0, "length");
        must!(v.is_empty() && v.get_cloned(0).is_none() && v.iter().next().is_none(), "empty");
        must_eq!(v.to_vec(), Vec::<i32>::new(), "to_vec");
    })* } }
    empty!(
        ConcurrentVec::<i32>::new(),
        ConcurrentVec::<i32>::default(),
        ConcurrentVec::<i32>::with_doubling_growth(),
        ConcurrentVec::<i32, SplitVec<_, Linear>>::with_linear_growth(3, 4),
        ConcurrentVec::<i32, FixedVec<_>>::with_fixed_capacity(0),
        ConcurrentVec::<i32, FixedVec<_>>::with_fixed_capacity(9)
    );
    for e in 1..6usize {
        for f in 1..6usize {
            ctx!("with_linear_growth({e}, {f})");
            let v = ConcurrentVec::<i32, SplitVec<_, Linear>>::with_linear_growth(e, f);
            must_eq!(v.maximum_capacity(), f << e, "maximum capacity");
            v.extend(0..(f << e) as i32);
            must_eq!(v.len(), f << e, "length when full");
        }
        let v = ConcurrentVec::<i32, FixedVec<_>>::with_fixed_capacity(e);
        ctx!("with_fixed_capacity({e})");
        must_eq!(v.maximum_capacity(), e, "maximum capacity");
        must_eq!(v.capacity(), e, "capacity");
    }
    ctx!("the capacity of a doubling vec");
    let v = ConcurrentVec::<u8>::new();
    must!(v.maximum_capacity() > 1 << 30, "maximum capacity {}", v.maximum_capacity());
}
pub fn c12_more(cx: &mut Cx) {
    // conversions after element operations, failed growth, concurrent filling
    for cap in 0..if cfg!(miri) { 4 } else { 14 } {
        for fails in 1..3 {
            for how in 0..3 {
                ctx!("fixed vec of capacity {cap}, {fails} failed pushes, conversion {how}");
                let v: ConcurrentVec<Tk, FixedVec<_>> = ConcurrentVec::with_fixed_capacity(cap);
                fill(&v, cap, cap);
                for _ in 0..fails {
                    must!(panics(|| v.push(Tk::new(0))), "push beyond the capacity must panic");
                }
                let got = match how {
                    0 => ids(&v.to_vec()),
                    1 => v.into_iter().map(|x| x.get()).collect(),
                    _ => {
                        let i = v.into_inner();
                        must_eq!(i.len(), cap, "length of the inner vec");
                        ids(&ConcurrentVec::from(i).to_vec())
                    }
                };
                must_eq!(got, seq(cap), "values");
                must_eq!(live(), 0, "number of values alive at the end");
            }
        }
    }
    for round in 0..cx.reps(40, 1) {
        let th = cx.threads(4);
        let n = if cfg!(miri) { 4 } else { 60 };
        kinds!(Tk, th * n, |v, k| {
            ctx!("{k} vec filled by {th} threads, then {}", ["to_vec", "into_iter", "into_inner", "drop", "to_vec without asking the length"][round % 5]);
            par(th, |t| {
                for i in 0..n {
                    v.push(Tk::new((t * n + i) as i64));
                }
            });
            let mut got: Vec<i64> = match round % 5 {
                0 | 4 => ids(&v.to_vec()),
                1 => v.into_iter().map(|x| x.get()).collect(),
                2 => ids(&ConcurrentVec::from(v.into_inner()).to_vec()),
                _ => {
                    drop(v);
                    (0..(th * n) as i64).collect()
                }
            };
            got.sort();
            must_eq!(got, (0..(th * n) as i64).collect::<Vec<_>>(), "values");
        });
        must_eq!(live(), 0, "number of values alive at the end");
    }
    // clones which are made while another thread grows the vec: a prefix, at least of all that was there before
    for round in 0..cx.reps(30, 1) {
        ctx!("round {round}: clones while another thread pushes and extends");
        let n = if cfg!(miri) { 8 } else { 400 };
        let v: ConcurrentVec<Tk> = ConcurrentVec::new();
        let done = AtomicUsize::new(0);
        par(3, |t| {
            if t == 0 {
                let mut i = 0;
                while i < n {
                    let k = if (i + round) % 3 == 0 { 2 } else { 1 };
                    if k == 1 {
                        v.push(Tk::new(i as i64));
                    } else {
                        v.extend([Tk::new(i as i64), Tk::new(i as i64 + 1)]);
                    }
                    i += k;
                    done.store(i, SeqCst);
                }
            } else {
                loop {
                    let before = done.load(SeqCst);
                    let c = if t == 1 { v.clone() } else { v.clone().clone() };
                    let len = c.len();
                    must!(len >= before && len <= n + 1, "a clone has {len} values, {before} calls had returned before");
                    c.push(Tk::new(-1));
                    let mut got = ids(&c.to_vec());
                    must_eq!(got.pop(), Some(-1), "last value of the clone");
                    must_eq!(got, (0..len as i64).collect::<Vec<_>>(), "values of a clone");
                    if before >= n {
                        break;
                    }
                }
            }
        });
        drop(v);
        must_eq!(live(), 0, "number of values alive at the end");
    }
    // zero-sized and large values
    ctx!("zero-sized and large values");
    let v: ConcurrentVec<()> = (0..100).map(|_| ()).collect();
    must_eq!(v.len(), 100, "length");
    must_eq!(v.to_vec().len(), 100, "to_vec");
    let v: ConcurrentVec<[u64; 64]> = (0..40).map(|i| [i; 64]).collect();
    must!(v.clone().into_iter().enumerate().all(|(i, x)| x == [i as u64; 64]), "values");
    must_eq!(v.to_vec().len(), 40, "to_vec");
    let v: ConcurrentVec<Option<Box<i32>>> = (0..40).map(|i| if i % 2 == 0 { None } else { Some(Box::new(i)) }).collect();
    must!(v.to_vec().into_iter().enumerate().all(|(i, x)| x.map(|b| *b) == if i % 2 == 0 { None } else { Some(i as i32) }), "values");
}

// ------------------------------------------------------------------ C13
pub fn c13_clear(cx: &mut Cx) {
    let m = if cfg!(miri) { 6 } else { 30 };
    let _ = &cx;
    for n in 0..m {
        for again in [0, 1, n / 2, n, n + 3] {
            for asked in [false, true] {
                kinds!(Tk, n + 4, |v, k| {
                    ctx!("{k} vec of {n} elements, clear (length asked before: {asked}), then {again} values");
                    fill(&v, n, n + asked as usize);
                    if asked {
                        v.len();
                    }
                    let (cap, max) = (v.capacity(), v.maximum_capacity());
                    v.clear();
                    must_eq!(live(), 0, "number of values alive after clear");
                    must_eq!(v.len(), 0, "length after clear");
                    must!(v.is_empty(), "is_empty after clear");
                    must_eq!(v.maximum_capacity(), max, "maximum capacity after clear");
                    must_eq!(v.capacity(), cap, "capacity after clear");
                    for i in 0..n + 3 {
                        must!(v.get(i).is_none() && v.get_cloned(i).is_none() && v.get_raw(i).is_none(), "there is a value at {i} after clear");
                    }
                    must_eq!(unsafe { v.iter_ref() }.count(), 0, "values after clear");
                    for i in 0..again {
                        must_eq!(v.push(Tk::new(100 + i as i64)), i, "position after clear");
                        must_eq!(v.len(), i + 1, "length after clear");
                        must!(v.get_cloned(i + 1).is_none(), "old value at {} after clear", i + 1);
                        must_eq!(live(), i as i64 + 1, "number of values alive");
                    }
                    must_eq!(content(&v), (100..100 + again as i64).collect::<Vec<_>>(), "content after clear and {again} pushes");
                    v.clear();
                    v.clear();
                    must_eq!(live(), 0, "number of values alive after clearing twice more");
                    v.extend(tks([1, 2]));
                    must_eq!(content(&v), vec![1, 2], "content");
                    let w = v.to_vec();
                    must_eq!(ids(&w), vec![1, 2], "to_vec after clear");
                });
                must_eq!(live(), 0, "number of values alive at the end");
            }
        }
    }
    // after failed growth
    for cap in 0..6usize {
        ctx!("fixed vec of capacity {cap} after failed growth, clear");
        let mut v: ConcurrentVec<Tk, FixedVec<_>> = ConcurrentVec::with_fixed_capacity(cap);
        fill(&v, cap, 1);
        must!(panics(|| v.push(Tk::new(0))), "push must panic");
        must!(panics(|| v.extend(tks([0, 0]))), "extend must panic");
        v.clear();
        must_eq!(live(), 0, "number of values alive after clear");
        fill(&v, cap, 2);
        must_eq!(content(&v), seq(cap), "content after clear");
    }
    for cap in 2..8usize {
        for n in 0..cap {
            ctx!("fixed vec of capacity {cap} with {n} values, failed extend of {}, clear", cap - n + 1);
            let mut v: ConcurrentVec<Tk, FixedVec<_>> = ConcurrentVec::with_fixed_capacity(cap);
            fill(&v, n, 1);
            must!(panics(|| v.extend(tks(vec![0; cap - n + 1]))), "extend must panic");
            must_eq!(content(&v), seq(n), "content after the failed extend");
            v.clear();
            must_eq!(live(), 0, "number of values alive after clear");
            must_eq!(v.len(), 0, "length after clear");
            fill(&v, cap, 2);
            must_eq!(content(&v), seq(cap), "content after clear and refilling");
        }
    }
}
pub fn c13_reserve(cx: &mut Cx) {
    let m: usize = if cfg!(miri) { 5 } else { 22 };
    let _ = &cx;
    for n in 0..m {
        for asked in [0, 1, n, n + 1, 16, 33, 60] {
            let mut v: ConcurrentVec<Tk, SplitVec<_, Linear>> = ConcurrentVec::with_linear_growth(2, n.div_ceil(4).max(1));
            fill(&v, n, n);
            let (cap, max) = (v.capacity(), v.maximum_capacity());
            ctx!("linear vec of {n} elements with maximum capacity {max}, reserve_maximum_capacity({asked})");
            let addr: Vec<usize> = (0..n).map(|i| &v[i] as *const _ as usize).collect();
            let r = v.reserve_maximum_capacity(asked);
            must!(r >= asked && r >= max, "returned maximum capacity {r}");
            must_eq!(r, v.maximum_capacity(), "returned maximum capacity");
            must_eq!(content(&v), seq(n), "content");
            must_eq!(v.len(), n, "length");
            must!(v.capacity() >= cap, "capacity");
            for i in 0..n {
                must_eq!(&v[i] as *const _ as usize, addr[i], "address of element {i}");
            }
            for i in n..r {
                must_eq!(v.push(Tk::new(i as i64)), i, "position after reserving");
            }
            must_eq!(v.len(), r, "length when full");
            must!(panics(|| v.push(Tk::new(0))), "push beyond the new maximum capacity must panic");
            must_eq!(content(&v)[..n], seq(n), "content when full");
            must_eq!(content(&v)[n..], (n as i64..r as i64).collect::<Vec<_>>(), "content when full");
            // failed pushes do not count
            let r2 = v.reserve_maximum_capacity(r + 9);
            must!(r2 >= r + 9, "returned maximum capacity {r2}");
            must_eq!(v.len(), r, "length after reserving again");
            must_eq!(v.push(Tk::new(-3)), r, "position of the push after reserving again");
            must_eq!(v.to_vec().len(), r + 1, "to_vec");
            must_eq!(live(), 0, "number of values alive at the end");
        }
        // within the capacity of the other storages nothing changes
        kinds!(Tk, n + 2, |v, k| {
            if k != "linear" {
                fill(&v, n, n);
                let max = v.maximum_capacity();
                ctx!("{k} vec of {n} elements, reserve_maximum_capacity within the maximum {max}");
                for a in [0, n, n + 2] {
                    must_eq!(v.reserve_maximum_capacity(a), max, "returned maximum capacity");
                    must_eq!(content(&v), seq(n), "content");
                }
                must_eq!(v.push(Tk::new(1)), n, "position of the next push");
                must!(panics(|| if k == "fixed" { v.extend(tks([1, 2])) } else { panic!() }), "extend beyond the capacity must panic");
                must_eq!(v.reserve_maximum_capacity(1), max, "returned maximum capacity after failed growth");
                must_eq!(v.len(), n + 1, "length");
            }
        });
    }
    // growth fails before the capacity is used up: its reservations are forgotten
    for n in 1..if cfg!(miri) { 3 } else { 9 } {
        for asked in [0, 4, 8, 12, 13, 40] {
            let mut v: ConcurrentVec<Tk, SplitVec<_, Linear>> = ConcurrentVec::with_linear_growth(2, 3);
            ctx!("linear vec of {n} values with maximum capacity 12, extend of 12 fails, reserve_maximum_capacity({asked})");
            fill(&v, n, n);
            let at: Vec<usize> = (0..n).map(|i| &v[i] as *const _ as usize).collect();
            must!(panics(|| v.extend(tks(vec![-7; 12]))), "extend beyond the maximum must panic");
            let r = v.reserve_maximum_capacity(asked);
            must!(r >= 12 && r >= asked, "returned maximum capacity {r}");
            must_eq!(r, v.maximum_capacity(), "maximum capacity");
            let cap = v.capacity();
            for _ in cap..r {
                let i = v.push(Tk::new(5));
                must!(i < r, "position {i} of a push after reserving");
                must_eq!(unsafe { v.get_ref(i) }.map(|x| x.get()), Some(5), "value pushed after reserving");
                must!(v.capacity() > i && v.capacity() <= r, "capacity");
            }
            for i in 0..n {
                must_eq!(v[i].map(|x| x.get()), seq(n)[i], "value {i}");
                must_eq!(&v[i] as *const _ as usize, at[i], "address of element {i}");
            }
            drop(v);
            must_eq!(live(), 0, "number of values alive at the end");
        }
    }
    // capacity never exceeds the maximum, never shrinks, covers the length
    kinds!(Tk, 40, |v, k| {
        ctx!("{k} vec: capacity while 40 values are pushed");
        let mut c = v.capacity();
        for i in 0..40 {
            v.push(Tk::new(i));
            let d = v.capacity();
            must!(d >= c && d as i64 > i && d <= v.maximum_capacity(), "capacity {d} after {c} with {} elements, maximum {}", i + 1, v.maximum_capacity());
            c = d;
        }
    });
}

// ------------------------------------------------------------------ C14
pub fn c14_all(cx: &mut Cx) {
    let m = if cfg!(miri) { 5 } else { 24 };
    let _ = &cx;
    for n in 0..m {
        kinds!(i64, n, |v, k| {
            ctx!("{k} vec of {n} elements, raw access");
            v.extend(seq(n));
            let addr = |i: usize| v[i].map(|x| x as *const i64);
            for i in 0..n {
                must_eq!(v.get_raw(i), Some(addr(i)), "get_raw({i})");
                must_eq!(v.get_raw_mut(i).map(|p| p as *const i64), Some(addr(i)), "get_raw_mut({i})");
                must_eq!(unsafe { v.get_ref(i) }.map(|p| p as *const i64), Some(addr(i)), "get_ref({i})");
                must_eq!(unsafe { v.get_mut(i) }.map(|p| p as *const i64), Some(addr(i)), "get_mut({i})");
                must_eq!(unsafe { v.get_ref(i) }, Some(&seq(n)[i]), "value of get_ref({i})");
            }
            for i in (n..n + 40).chain([1 << 20, usize::MAX - 1, usize::MAX]) {
                must!(v.get_raw(i).is_none() && v.get_raw_mut(i).is_none(), "raw pointer at {i} of {n} elements");
                must!(unsafe { v.get_ref(i) }.is_none() && unsafe { v.get_mut(i) }.is_none(), "reference at {i} of {n} elements");
            }
            must_eq!(unsafe { v.iter_ref() }.copied().collect::<Vec<_>>(), seq(n), "iter_ref");
            must_eq!(unsafe { v.iter_mut() }.map(|x| *x).collect::<Vec<_>>(), seq(n), "iter_mut");
            must_eq!(unsafe { v.iter_ref() }.map(|x| x as *const i64).collect::<Vec<_>>(), (0..n).map(addr).collect::<Vec<_>>(), "addresses of iter_ref");
            must_eq!(unsafe { v.iter_mut() }.map(|x| x as *const i64).collect::<Vec<_>>(), (0..n).map(addr).collect::<Vec<_>>(), "addresses of iter_mut");
            for x in unsafe { v.iter_mut() } {
                *x += 1;
            }
            for i in 0..n {
                if let Some(p) = v.get_raw_mut(i) {
                    unsafe { *p += 1 };
                }
                if let Some(p) = unsafe { v.get_mut(i) } {
                    *p += 1;
                }
            }
            must_eq!(v.clone_to_vec(), seq(n).iter().map(|x| x + 3).collect::<Vec<_>>(), "content after writing through the raw access");
            for a in 0..=n.min(7) {
                for b in a..=n.min(7) {
                    more!("slice {a}..{b}");
                    let s = v.slice(a..b);
                    for i in 0..b - a {
                        must_eq!(s.get_raw(i), Some(addr(a + i)), "slice get_raw({i})");
                        must_eq!(s.get_raw_mut(i).map(|p| p as *const i64), Some(addr(a + i)), "slice get_raw_mut({i})");
                        must_eq!(unsafe { s.get_ref(i) }.map(|p| p as *const i64), Some(addr(a + i)), "slice get_ref({i})");
                        must_eq!(unsafe { s.get_mut(i) }.map(|p| p as *const i64), Some(addr(a + i)), "slice get_mut({i})");
                    }
                    for i in [b - a, b - a + 1, n, 1 << 20, usize::MAX - a, usize::MAX] {
                        if i >= b - a {
                            must!(s.get_raw(i).is_none() && s.get_raw_mut(i).is_none(), "slice raw pointer at {i}");
                            must!(unsafe { s.get_ref(i) }.is_none() && unsafe { s.get_mut(i) }.is_none(), "slice reference at {i}");
                        }
                    }
                    must_eq!(unsafe { s.iter_ref() }.map(|x| x as *const i64).collect::<Vec<_>>(), (a..b).map(addr).collect::<Vec<_>>(), "addresses of slice iter_ref");
                    must_eq!(unsafe { s.iter_mut() }.map(|x| x as *const i64).collect::<Vec<_>>(), (a..b).map(addr).collect::<Vec<_>>(), "addresses of slice iter_mut");
                }
            }
        });
    }
    // gaps and unwritten positions give no access; later values do
    for at in 0..m.min(14) {
        kinds!(i64, at + 10, |v, k| {
            ctx!("{k} vec, position {at} unwritten, 3 values after it");
            v.extend(seq(at));
            v.push_for_idx(|_| {
                v.extend([-1, -2, -3]);
                must!(v.get_raw(at).is_none() && v.get_raw_mut(at).is_none(), "raw pointer to the unwritten position");
                must!(unsafe { v.get_ref(at) }.is_none() && unsafe { v.get_mut(at) }.is_none(), "reference to the unwritten position");
                for j in 1..4 {
                    must_eq!(unsafe { v.get_ref(at + j) }, Some(&-(j as i64)), "get_ref after the gap");
                    must!(v.get_raw(at + j).is_some() && v.get_raw_mut(at + j).is_some(), "raw pointer after the gap");
                    must_eq!(unsafe { v.get_mut(at + j) }, Some(&mut -(j as i64)), "get_mut after the gap");
                }
                must!(v.get_raw(at + 4).is_none(), "raw pointer beyond the last value");
                let w: Vec<i64> = seq(at).into_iter().chain([-1, -2, -3]).collect();
                must_eq!(unsafe { v.iter_ref() }.copied().collect::<Vec<_>>(), w, "iter_ref with a gap");
                must_eq!(unsafe { v.iter_mut() }.map(|x| *x).collect::<Vec<_>>(), w, "iter_mut with a gap");
                7
            });
            must_eq!(unsafe { v.get_ref(at) }, Some(&7), "get_ref after the position was written");
        });
    }
    for cap in 0..5usize {
        ctx!("fixed vec of capacity {cap} after failed pushes, raw access");
        let v: ConcurrentVec<i64, FixedVec<_>> = ConcurrentVec::with_fixed_capacity(cap);
        v.extend(seq(cap));
        for _ in 0..3 {
            must!(panics(|| v.push(1)), "push must panic");
        }
        for i in cap..cap + 8 {
            must!(v.get_raw(i).is_none() && v.get_raw_mut(i).is_none(), "raw pointer at {i}");
            must!(unsafe { v.get_ref(i) }.is_none() && unsafe { v.get_mut(i) }.is_none(), "reference at {i}");
        }
        must_eq!(unsafe { v.iter_ref() }.count(), cap, "number of values of iter_ref");
        must_eq!(unsafe { v.iter_mut() }.count(), cap, "number of values of iter_mut");
    }
}
pub fn c14_par(cx: &mut Cx) {
    // a reference obtained while the vec grows refers to a complete value
    for round in 0..cx.reps(40, 1) {
        let n = if cfg!(miri) { 6 } else { 300 };
        let seed = cx.rng.next();
        let fin = std::sync::atomic::AtomicUsize::new(0);
        kinds!(Tk, 2 * n, |v, k| {
            ctx!("{k} vec, two pushing threads, references taken meanwhile, seed {seed}, round {round}");
            fin.store(0, std::sync::atomic::Ordering::SeqCst);
            par(4, |t| {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                if t < 2 {
                    for _ in 0..n {
                        let i = v.push_for_idx(|i| {
                            jitter(&mut r);
                            Tk::new(i as i64)
                        });
                        must_eq!(unsafe { v.get_ref(i) }.map(|x| x.get()), Some(i as i64), "get_ref({i}) after the push returned");
                        must!(v.get_raw(i).is_some(), "get_raw({i}) after the push returned");
                    }
                    fin.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                } else {
                    let mut top = 4;
                    while fin.load(std::sync::atomic::Ordering::SeqCst) < 2 {
                        let i = r.below(top + 4);
                        if let Some(x) = unsafe { v.get_ref(i) } {
                            must_eq!(x.get(), i as i64, "value of get_ref({i})");
                            top = top.max(i);
                        }
                        if let Some(p) = v.get_raw(i) {
                            must_eq!(unsafe { &*p }.get(), i as i64, "value of get_raw({i})");
                        }
                        if r.chance(1, 20) {
                            let l = v.len();
                            let mut c = 0;
                            let mut last = -1;
                            for x in unsafe { v.iter_ref() } {
                                must!(x.get() > last, "iter_ref is out of order");
                                last = x.get();
                                c += 1;
                            }
                            must!(c >= l, "iter_ref gives {c} values, the length was {l}");
                            top = top.max(c);
                        }
                    }
                }
            });
        });
    }
}
