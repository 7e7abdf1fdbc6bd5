//! The known findings: each scenario fails if the recorded behaviour is still there.
use crate::util::*;
use orx_concurrent_vec::*;
use std::cell::Cell;

/// K1: the fixed storage is moved by reserving beyond its capacity, while the old address is kept
pub fn k1(_cx: &mut Cx) {
    ctx!("ConcurrentVec::with_fixed_capacity(2), 2 pushes, reserve_maximum_capacity(4096), compare the addresses in the pinned vec with those the concurrent vec uses");
    let mut v: ConcurrentVec<u64, FixedVec<_>> = ConcurrentVec::with_fixed_capacity(2);
    v.extend([1, 2]);
    let before = &v[0] as *const _ as usize;
    let r = v.reserve_maximum_capacity(4096);
    // the address only, nothing is read through it
    let after = v.get(0).map(|e| e as *const _ as usize);
    let inner = v.into_inner();
    let real = inner.get(0).map(|e| e as *const _ as usize);
    std::mem::forget(inner);
    must!(r >= 4096, "returned {r}");
    must!(after == real, "the storage was reallocated, but accesses still use the freed memory (address kept: {})", after == Some(before));
}

/// K2: raw reads give nothing for an existing element while another access holds it
pub fn k2(_cx: &mut Cx) {
    thread_local! { static V: Cell<usize> = const { Cell::new(0) }; static SEEN: Cell<i32> = const { Cell::new(-1) }; }
    struct E;
    impl Clone for E {
        fn clone(&self) -> Self {
            let v: &ConcurrentVec<E> = unsafe { &*(V.with(|x| x.get()) as *const _) };
            SEEN.with(|s| s.set(unsafe { v.get_ref(0) }.is_some() as i32));
            E
        }
    }
    ctx!("get_ref(0) while the clone of element 0 is running");
    let v: ConcurrentVec<E> = ConcurrentVec::new();
    v.push(E);
    V.with(|x| x.set(&v as *const _ as usize));
    let _ = v.get_cloned(0);
    must_eq!(SEEN.with(|s| s.get()), 1, "get_ref of the pushed element");
}
