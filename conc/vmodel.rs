//! Stands in for `std` in the copied sources of src/lie: everything is std's, except the locks and once-cells, which are
//! scheduling points with a deadlock check, the hash map, which is a list of pairs, and `Arc`, which never frees.
//! Threads are sequentialised: at a scheduling point another request may run from start to end (see c31.rs).
#![allow(dead_code, static_mut_refs)]
pub use ::std::*;

pub mod sched {
    pub const THREADS: usize = 3;
    /// The thread that runs now; the threads below it are suspended.
    pub static mut ME: usize = 0;
    pub static mut HOOK: Option<fn()> = None;
    pub struct State { pub readers: [u8; THREADS], pub writer: usize }
    impl State { pub const fn new() -> State { State { readers: [0; THREADS], writer: usize::MAX } } }
    pub static mut WAITS: [*const State; THREADS] = [::std::ptr::null(); THREADS];

    pub fn me() -> usize { unsafe { ME } }
    fn holds(s: *const State, t: usize) -> bool { unsafe { !s.is_null() && ((*s).readers[t] > 0 || (*s).writer == t) } }

    /// Before this thread takes the lock. Panics if it can never get it.
    pub fn acquire(s: *mut State, write: bool) {
        unsafe {
            WAITS[me()] = s;
            if let Some(f) = HOOK { f(); }
            let me = me();
            let mut t = 0;
            while t < THREADS {
                let bars = if write { holds(s, t) } else { (*s).writer == t };
                if bars {
                    if t == me { panic!("deadlock: the thread waits for a lock it holds itself"); }
                    if holds(WAITS[t], me) { panic!("deadlock: two threads wait for each other"); }
                    // The thread would have to wait for a suspended one, so this schedule cannot go on:
                    // the one in which it runs later covers it.
                    crate::nd::assume(false);
                }
                t += 1;
            }
            WAITS[me] = ::std::ptr::null();
            if write { (*s).writer = me; } else { (*s).readers[me] += 1; }
        }
    }
    /// Whether the lock can be taken without waiting; takes it.
    pub fn try_acquire(s: *mut State, write: bool) -> bool {
        unsafe {
            if let Some(f) = HOOK { f(); }
            let mut t = 0;
            while t < THREADS {
                if if write { holds(s, t) } else { (*s).writer == t } { return false; }
                t += 1;
            }
            if write { (*s).writer = me(); } else { (*s).readers[me()] += 1; }
            true
        }
    }
    pub fn release(s: *mut State, write: bool) {
        unsafe { if write { (*s).writer = usize::MAX; } else { (*s).readers[me()] -= 1; } }
    }
}

pub mod sync {
    pub use ::std::sync::*;
    use super::sched::{self, State};
    use ::std::cell::UnsafeCell;
    use ::std::ops::{Deref, DerefMut};

    macro_rules! guard {
        ($name:ident, $write:literal) => {
            pub struct $name<'a, T: ?Sized> { state: *mut State, data: *mut T, life: ::std::marker::PhantomData<&'a T> }
            impl<'a, T: ?Sized> Deref for $name<'a, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.data } } }
            impl<'a, T: ?Sized> Drop for $name<'a, T> { fn drop(&mut self) { sched::release(self.state, $write); } }
        };
    }
    guard!(RwLockReadGuard, false);
    guard!(RwLockWriteGuard, true);
    guard!(MutexGuard, true);
    impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.data } } }
    impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.data } } }

    /// Shares and never frees: what is behind an `Arc` can be told apart by its address.
    pub struct Arc<T: ?Sized>(*const T);
    unsafe impl<T: ?Sized + Send + Sync> Send for Arc<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for Arc<T> {}
    impl<T> Arc<T> {
        pub fn new(v: T) -> Self { Arc(Box::into_raw(Box::new(v))) }
    }
    impl<T: ?Sized> Arc<T> {
        pub fn ptr_eq(a: &Self, b: &Self) -> bool { a.0 as *const u8 == b.0 as *const u8 }
        pub fn as_ptr(a: &Self) -> *const T { a.0 }
    }
    impl<T: ?Sized> Clone for Arc<T> { fn clone(&self) -> Self { Arc(self.0) } }
    impl<T: ?Sized> Deref for Arc<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0 } } }
    impl<T: ?Sized> AsRef<T> for Arc<T> { fn as_ref(&self) -> &T { unsafe { &*self.0 } } }
    impl<T> From<T> for Arc<T> { fn from(v: T) -> Self { Arc::new(v) } }
    impl<T: Default> Default for Arc<T> { fn default() -> Self { Arc::new(T::default()) } }
    impl<T: ?Sized + ::std::marker::Unsize<U>, U: ?Sized> ::std::ops::CoerceUnsized<Arc<U>> for Arc<T> {}

    pub struct RwLock<T: ?Sized> { state: UnsafeCell<State>, data: UnsafeCell<T> }
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    impl<T> RwLock<T> {
        pub const fn new(data: T) -> Self { RwLock { state: UnsafeCell::new(State::new()), data: UnsafeCell::new(data) } }
    }
    impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            sched::acquire(self.state.get(), false);
            Ok(RwLockReadGuard { state: self.state.get(), data: self.data.get(), life: ::std::marker::PhantomData })
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            sched::acquire(self.state.get(), true);
            Ok(RwLockWriteGuard { state: self.state.get(), data: self.data.get(), life: ::std::marker::PhantomData })
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            if !sched::try_acquire(self.state.get(), false) { return Err(TryLockError::WouldBlock); }
            Ok(RwLockReadGuard { state: self.state.get(), data: self.data.get(), life: ::std::marker::PhantomData })
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            if !sched::try_acquire(self.state.get(), true) { return Err(TryLockError::WouldBlock); }
            Ok(RwLockWriteGuard { state: self.state.get(), data: self.data.get(), life: ::std::marker::PhantomData })
        }
        pub fn is_poisoned(&self) -> bool { false }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.data.get_mut()) }
    }

    pub struct Mutex<T: ?Sized> { state: UnsafeCell<State>, data: UnsafeCell<T> }
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    impl<T> Mutex<T> {
        pub const fn new(data: T) -> Self { Mutex { state: UnsafeCell::new(State::new()), data: UnsafeCell::new(data) } }
    }
    impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            sched::acquire(self.state.get(), true);
            Ok(MutexGuard { state: self.state.get(), data: self.data.get(), life: ::std::marker::PhantomData })
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if !sched::try_acquire(self.state.get(), true) { return Err(TryLockError::WouldBlock); }
            Ok(MutexGuard { state: self.state.get(), data: self.data.get(), life: ::std::marker::PhantomData })
        }
        pub fn is_poisoned(&self) -> bool { false }
    }

    /// Initialisation runs under a lock, as in std.
    pub struct OnceLock<T> { state: UnsafeCell<State>, data: UnsafeCell<Option<T>> }
    unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    impl<T> OnceLock<T> {
        pub const fn new() -> Self { OnceLock { state: UnsafeCell::new(State::new()), data: UnsafeCell::new(None) } }
        pub fn get(&self) -> Option<&T> { unsafe { if let Some(f) = sched::HOOK { f(); } (*self.data.get()).as_ref() } }
        pub fn set(&self, v: T) -> Result<(), T> {
            sched::acquire(self.state.get(), true);
            let r = unsafe { if (*self.data.get()).is_some() { Err(v) } else { *self.data.get() = Some(v); Ok(()) } };
            sched::release(self.state.get(), true);
            r
        }
        pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
            unsafe {
                if let Some(v) = &*self.data.get() { return v; }
                sched::acquire(self.state.get(), true);
                if (*self.data.get()).is_none() { let v = f(); *self.data.get() = Some(v); }
                sched::release(self.state.get(), true);
                (*self.data.get()).as_ref().unwrap()
            }
        }
    }
    pub struct LazyLock<T, F = fn() -> T> { cell: OnceLock<T>, init: UnsafeCell<Option<F>> }
    unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self { LazyLock { cell: OnceLock::new(), init: UnsafeCell::new(Some(f)) } }
        pub fn force(this: &Self) -> &T { this.cell.get_or_init(|| unsafe { ((*this.init.get()).take().unwrap())() }) }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { LazyLock::force(self) } }
}

pub mod collections {
    pub use ::std::collections::*;
    pub use self::hash_map::HashMap;
    pub mod hash_map {
        use ::std::borrow::Borrow;
        /// Room for this many pairs, without allocation.
        const ROOM: usize = 4;
        pub struct HashMap<K, V> { e: [Option<(K, V)>; ROOM], n: usize }
        impl<K, V> Default for HashMap<K, V> { fn default() -> Self { HashMap::new() } }
        pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
        pub struct OccupiedEntry<'a, K, V> { map: &'a mut HashMap<K, V>, i: usize }
        pub struct VacantEntry<'a, K, V> { map: &'a mut HashMap<K, V>, k: K }
        impl<'a, K, V> OccupiedEntry<'a, K, V> {
            pub fn get(&self) -> &V { self.map.at(self.i) }
            pub fn get_mut(&mut self) -> &mut V { self.map.at_mut(self.i) }
            pub fn into_mut(self) -> &'a mut V { self.map.at_mut(self.i) }
            pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(self.get_mut(), v) }
        }
        impl<'a, K, V> VacantEntry<'a, K, V> {
            pub fn insert(self, v: V) -> &'a mut V { let i = self.map.push(self.k, v); self.map.at_mut(i) }
            pub fn key(&self) -> &K { &self.k }
        }
        impl<'a, K, V> Entry<'a, K, V> {
            pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(v) } }
            pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
            pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
            pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(e) = &mut self { f(e.get_mut()); } self }
        }
        impl<K, V> HashMap<K, V> {
            pub const fn new() -> Self { HashMap { e: [None, None, None, None], n: 0 } }
            pub fn with_capacity(_: usize) -> Self { HashMap::new() }
            pub fn reserve(&mut self, _: usize) {}
            pub fn len(&self) -> usize { self.n }
            pub fn is_empty(&self) -> bool { self.n == 0 }
            pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> { self.e.iter().flatten().map(|e| (&e.0, &e.1)) }
            pub fn keys(&self) -> impl Iterator<Item = &K> { self.e.iter().flatten().map(|e| &e.0) }
            pub fn values(&self) -> impl Iterator<Item = &V> { self.e.iter().flatten().map(|e| &e.1) }
            fn at(&self, i: usize) -> &V { match &self.e[i] { Some(e) => &e.1, None => unreachable!() } }
            fn at_mut(&mut self, i: usize) -> &mut V { match &mut self.e[i] { Some(e) => &mut e.1, None => unreachable!() } }
            fn push(&mut self, k: K, v: V) -> usize {
                let i = self.n;
                assert!(i < ROOM);
                unsafe { ::std::ptr::write(&mut self.e[i], Some((k, v))); }
                self.n += 1;
                i
            }
        }
        impl<K: Eq, V> HashMap<K, V> {
            fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
                let mut i = 0;
                while i < self.n { if let Some(e) = &self.e[i] { if e.0.borrow() == k { return Some(i); } } i += 1; }
                None
            }
            pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(self.at(i)), None => None } }
            pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(self.at_mut(i)), None => None } }
            pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_some() }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                match self.find(&k) { Some(i) => Some(::std::mem::replace(self.at_mut(i), v)), None => { self.push(k, v); None } }
            }
            pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
                match self.find(k) {
                    Some(i) => { self.n -= 1; let n = self.n; self.e.swap(i, n); self.e[n].take().map(|e| e.1) }
                    None => None,
                }
            }
            pub fn clear(&mut self) { *self = HashMap::new(); }
            pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
                match self.find(&k) { Some(i) => Entry::Occupied(OccupiedEntry { map: self, i }), None => Entry::Vacant(VacantEntry { map: self, k }) }
            }
        }
        impl<K: Eq + Borrow<Q>, Q: Eq + ?Sized, V> ::std::ops::Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
    }
}
