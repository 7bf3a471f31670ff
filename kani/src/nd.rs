//! Nondeterministic inputs. Under Kani every value is symbolic; natively the values are taken, in
//! the order they are asked for, from a counterexample Kani printed.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 { kani::any() }
    pub fn u16() -> u16 { kani::any() }
    pub fn u32() -> u32 { kani::any() }
    pub fn u64() -> u64 { kani::any() }
    pub fn assume(b: bool) { kani::assume(b) }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    thread_local!(pub static VALUES: RefCell<std::collections::VecDeque<Vec<u8>>> = Default::default());
    fn take(n: usize) -> [u8; 8] {
        let v = VALUES.with(|v| v.borrow_mut().pop_front());
        let v = match v { Some(v) => v, None => vec![0; n] };
        if v.len() != n {
            eprintln!("REPLAY-MISMATCH: expected {} bytes, counterexample has {:?}", n, v);
            std::process::exit(78);
        }
        let mut r = [0u8; 8];
        r[..n].copy_from_slice(&v);
        r
    }
    pub fn u8() -> u8 { take(1)[0] }
    pub fn u16() -> u16 { u64::from_le_bytes(take(2)) as u16 }
    pub fn u32() -> u32 { u64::from_le_bytes(take(4)) as u32 }
    pub fn u64() -> u64 { u64::from_le_bytes(take(8)) }
    pub fn assume(b: bool) {
        if !b {
            eprintln!("REPLAY-ASSUME: the counterexample does not satisfy the harness's assumptions");
            std::process::exit(77);
        }
    }
}

pub use imp::*;

pub fn usize() -> usize { u64() as usize }

/// A value in `lo..=hi`.
pub fn range(lo: u32, hi: u32) -> u32 {
    let x = u32();
    assume(x >= lo && x <= hi);
    x
}

pub fn urange(lo: usize, hi: usize) -> usize {
    let x = usize();
    assume(x >= lo && x <= hi);
    x
}

/// Marks a point every harness must be able to reach (checked, so that no harness is vacuous).
#[macro_export]
macro_rules! reached {
    () => {
        #[cfg(kani)]
        kani::cover!(true, "reached");
    };
}

/// Declares proof harnesses, and registers them by name for native replay.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident [$unwind:literal] $body:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() { $body; $crate::reached!(); }
        )*
        pub const LIST: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
    };
}

/// A point no input may reach, in a harness whose other runs all panic.
#[macro_export]
macro_rules! never {
    ($msg:literal) => {
        #[cfg(kani)]
        kani::cover!(true, "never");
        #[cfg(not(kani))]
        $crate::nd::mark_never($msg);
    };
}

#[cfg(not(kani))]
pub fn mark_never(msg: &str) {
    println!("REPRODUCED: {}", msg);
    std::process::exit(101);
}

/// Harnesses in which every run must panic before it reaches `never!`.
#[macro_export]
macro_rules! refusals {
    ($($name:ident [$unwind:literal] $body:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::should_panic)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() { $body; }
        )*
        pub const REFUSALS: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
    };
}

#[cfg(not(kani))]
pub fn set_values(v: std::collections::VecDeque<Vec<u8>>) { VALUES.with(|x| *x.borrow_mut() = v); }
