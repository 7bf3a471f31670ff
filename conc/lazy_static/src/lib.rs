//! Stands in for lazy_static in the sequentialised model: the value is made on first use.
pub struct Lazy<T: 'static>(pub core::cell::UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Lazy<T> {}
impl<T> Lazy<T> {
    pub fn get(&'static self, f: fn() -> T) -> &'static T {
        unsafe {
            if (*self.0.get()).is_none() { core::ptr::write(self.0.get(), Some(f())); }
            (*self.0.get()).as_ref().unwrap()
        }
    }
}
pub fn initialize<T: core::ops::Deref>(lazy: &T) { let _ = &**lazy; }
#[macro_export]
macro_rules! lazy_static {
    ($(#[$attr:meta])* $vis:vis static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        #[allow(non_camel_case_types, dead_code)]
        $vis struct $N { __private: () }
        #[allow(non_upper_case_globals, dead_code)]
        $vis static $N: $N = $N { __private: () };
        impl core::ops::Deref for $N {
            type Target = $T;
            fn deref(&self) -> &$T {
                fn init() -> $T { $e }
                static LAZY: $crate::Lazy<$T> = $crate::Lazy(core::cell::UnsafeCell::new(None));
                LAZY.get(init)
            }
        }
        $crate::lazy_static!($($t)*);
    };
    () => ()
}
