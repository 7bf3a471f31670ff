#![cfg_attr(kani, feature(allocator_api))]
#[macro_use]
pub mod nd;
pub mod words;

// Each check builds only its own module: --cfg vk="c01" (and with it only the hooks it needs).
macro_rules! modules {
    ($($m:ident $c:literal)*) => {
        $(#[cfg(any(vk = "all", vk = $c))] pub mod $m;)*
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = all_refusals();
            $(#[cfg(any(vk = "all", vk = $c))] v.extend_from_slice($m::LIST);)*
            v
        }
        #[cfg(not(kani))]
        pub fn all_refusals() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(#[cfg(any(vk = "all", vk = $c))] v.extend_from_slice($m::REFUSALS);)*
            v
        }
    };
}
modules! {
    c01 "c01"
    c02 "c02"
    c03 "c03"
    c04 "c04"
    c05 "c05"
    c06 "c06"
    c07 "c07"
    c15 "c15"
    c22 "c22"
    c23 "c23"
    c24 "c24"
    c25 "c25"
    c26 "c26"
    c27 "c27"
}
