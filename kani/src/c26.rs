//! The Hall set itself, bare and behind the lock and trait object users get it through.
//! Reading and writing the lock is replaced by try_read and try_write: in one thread, blocking would be for ever.
use crate::nd;
use rustyalgebra::lie::verif::{verif_hall_set, HallSet, HallSetError};
#[cfg(kani)]
use std::sync::{LockResult, RwLock, RwLockReadGuard, RwLockWriteGuard, TryLockError};

fn too_small<T>(r: Result<T, HallSetError>) -> bool { match r { Err(HallSetError::HallSetTooSmall) => true, _ => false } }

/// A number the set has not built: every number but the zero of the placeholder.
fn unbuilt() -> u64 { let k = nd::u64(); nd::assume(k > 0); k }

fn letter<const N: u32>(hs: impl HallSet) {
    let k = nd::u64();
    match hs.is_letter(k) { Ok(b) => assert!(b == (k >= 1 && k <= N as u64)), Err(_) => assert!(false) }
    std::mem::forget(hs);
}
fn details(hs: impl HallSet) { assert!(too_small(hs.key_details(unbuilt()))); std::mem::forget(hs); }
fn lparent(hs: impl HallSet) { assert!(too_small(hs.lparent_details(unbuilt()))); std::mem::forget(hs); }
fn rparent(hs: impl HallSet) { assert!(too_small(hs.rparent_details(unbuilt()))); std::mem::forget(hs); }
/// Whatever is asked, twice: no panic, and the same kind of answer.
fn again(hs: impl HallSet) {
    let (k, d) = (nd::u64(), nd::u32());
    let (a, b, c) = (hs.key_details(k).is_ok(), hs.lparent_details(k).is_ok(), hs.rparent_details(k).is_ok());
    let r = hs.degree_range(d);
    if let Ok((x, y)) = &r { assert!(x <= y); }
    assert!(hs.degree_range(d).is_ok() == r.is_ok());
    assert!((hs.key_details(k).is_ok(), hs.lparent_details(k).is_ok(), hs.rparent_details(k).is_ok()) == (a, b, c));
    std::mem::forget(r);
    std::mem::forget(hs);
}

#[cfg(kani)]
fn fixed() -> std::collections::hash_map::RandomState { unsafe { std::mem::transmute([7u64, 9u64]) } }
#[cfg(kani)]
fn read<T: ?Sized>(l: &RwLock<T>) -> LockResult<RwLockReadGuard<'_, T>> {
    match l.try_read() { Ok(g) => Ok(g), Err(TryLockError::Poisoned(e)) => Err(e), _ => unreachable!() }
}
#[cfg(kani)]
fn write<T: ?Sized>(l: &RwLock<T>) -> LockResult<RwLockWriteGuard<'_, T>> {
    match l.try_write() { Ok(g) => Ok(g), Err(TryLockError::Poisoned(e)) => Err(e), _ => unreachable!() }
}

macro_rules! sets {
    ($($name:ident [$unwind:literal] $body:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::stub(std::collections::hash_map::RandomState::new, fixed))]
            #[cfg_attr(kani, kani::stub(std::sync::RwLock::read, read))]
            #[cfg_attr(kani, kani::stub(std::sync::RwLock::write, write))]
            pub fn $name() { $body; $crate::reached!(); }
        )*
        pub const LIST: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
    };
}
use verif_hall_set::{bare, shared};
sets! {
    c26q_letter_1 [5] { letter::<1>(shared::<1>(1)) }
    c26q_letter_7 [10] { letter::<7>(shared::<7>(1)) }
    c26q_letter_12 [6] { letter::<12>(shared::<12>(1)) }
    c26q_letter_25 [5] { letter::<25>(shared::<25>(1)) }
    c26q_letter_bare [5] { letter::<4000000000>(bare::<4000000000>(1)) }
    c26q_details_1 [5] { details(shared::<1>(1)) }
    c26q_details_7 [10] { details(shared::<7>(1)) }
    c26q_details_12 [6] { details(shared::<12>(3)) }
    c26q_details_25 [5] { details(shared::<25>(1)) }
    c26q_lparent_1 [5] { lparent(shared::<1>(1)) }
    c26q_lparent_7 [10] { lparent(shared::<7>(1)) }
    c26q_lparent_12 [6] { lparent(shared::<12>(3)) }
    c26q_lparent_25 [5] { lparent(shared::<25>(1)) }
    c26q_rparent_1 [5] { rparent(shared::<1>(1)) }
    c26q_rparent_7 [10] { rparent(shared::<7>(1)) }
    c26q_rparent_12 [6] { rparent(shared::<12>(3)) }
    c26q_rparent_25 [5] { rparent(shared::<25>(1)) }
    c26q_again_1 [5] { again(bare::<1>(1)) }
    c26q_again_7 [10] { again(bare::<7>(1)) }
    c26q_again_25 [5] { again(bare::<25>(1)) }
    c26t_again_shared_7 [10] { again(shared::<7>(1)) }
    c26q_again_shared_25 [5] { again(shared::<25>(1)) }
    c26t_letter_2 [32] { letter::<2>(bare::<2>(1)) }
    c26t_letter_3 [22] { letter::<3>(bare::<3>(1)) }
    c26t_details_3 [22] { details(bare::<3>(1)) }
    c26t_again_3 [22] { again(bare::<3>(1)) }
}
refusals! {}
