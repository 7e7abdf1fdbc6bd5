//! C15: Send and Sync
use crate::util::*;
use orx_concurrent_vec::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::MutexGuard;

struct W<T: ?Sized>(PhantomData<T>);
trait No {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T: ?Sized> No for &W<T> {}
struct S<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> No for &S<T> {}
impl<T: ?Sized + Send> W<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: ?Sized + Sync> S<T> {
    fn sync(&self) -> bool {
        true
    }
}
macro_rules! is_send { ($($t:tt)*) => { (&W::<$($t)*>(PhantomData)).send() } }
macro_rules! is_sync { ($($t:tt)*) => { (&S::<$($t)*>(PhantomData)).sync() } }

type Lin<T> = SplitVec<ConcurrentElement<T>, Linear>;
type Fix<T> = FixedVec<ConcurrentElement<T>>;

macro_rules! case {
    ($t:ty, $send:expr, $sync:expr) => {{
        let (send, sync): (bool, bool) = ($send, $sync);
        ctx!("elements of type {} (Send: {send}, Sync: {sync})", stringify!($t));
        must_eq!(is_send!($t), send, "the detection of Send");
        must_eq!(is_sync!($t), sync, "the detection of Sync");
        macro_rules! vec { ($v:ty, $s:ty, $n:expr) => {
            must_eq!(is_send!($v), send, "ConcurrentVec ({}) is Send", $n);
            must_eq!(is_sync!($v), send && sync, "ConcurrentVec ({}) is Sync", $n);
            must_eq!(is_send!($s), send && sync, "ConcurrentSlice ({}) is Send", $n);
            must_eq!(is_sync!($s), send && sync, "ConcurrentSlice ({}) is Sync", $n);
            must_eq!(is_send!(&'static $v), send && sync, "a reference to a ConcurrentVec ({}) is Send", $n);
        } }
        vec!(ConcurrentVec<$t>, ConcurrentSlice<'static, $t>, "doubling");
        vec!(ConcurrentVec<$t, Lin<$t>>, ConcurrentSlice<'static, $t, Lin<$t>>, "linear");
        vec!(ConcurrentVec<$t, Fix<$t>>, ConcurrentSlice<'static, $t, Fix<$t>>, "fixed");
        must_eq!(is_send!(ConcurrentElement<$t>), send, "ConcurrentElement is Send");
        must_eq!(is_sync!(ConcurrentElement<$t>), send && sync, "ConcurrentElement is Sync");
        must!(!is_send!(<ConcurrentVec<$t> as IntoIterator>::IntoIter) || send, "the owning iterator is Send although the value is not");
    }};
}
pub fn c15_all(cx: &mut Cx) {
    let _ = &cx;
    case!(i32, true, true);
    case!(String, true, true);
    case!(Box<dyn Fn() + Send + Sync>, true, true);
    case!(Cell<i32>, true, false);
    case!(Option<Cell<String>>, true, false);
    case!(std::sync::mpsc::Receiver<i32>, true, false);
    case!(MutexGuard<'static, i32>, false, true);
    case!(Rc<i32>, false, false);
    case!(*const i32, false, false);
    case!(Box<dyn Fn()>, false, false);
}
