//! A standard library whose concurrency is scheduled. Everything else is the real one.

pub use ::std::*;

pub mod sched;

pub mod env {
    pub use ::std::env::*;

    /// The arguments of the program under test.
    pub fn args() -> ::std::vec::IntoIter<String> {
        crate::sched::args().into_iter()
    }
}

pub mod thread {
    pub use ::std::thread::{panicking, AccessError, LocalKey, Result, ThreadId};

    use crate::sched;
    use ::std::sync::{Arc, Mutex};
    use ::std::time::Duration;

    pub struct JoinHandle<T> {
        tid: usize,
        out: Arc<Mutex<Option<T>>>,
    }

    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            sched::join(self.tid);
            let r = self.out.lock().unwrap().take();
            Ok(r.expect("a thread that ended has a result"))
        }
        pub fn is_finished(&self) -> bool {
            sched::is_finished(self.tid)
        }
        pub fn thread(&self) -> Thread {
            Thread { tid: self.tid }
        }
    }

    #[derive(Clone, Debug)]
    pub struct Thread {
        tid: usize,
    }
    impl Thread {
        pub fn unpark(&self) {
            sched::unpark(self.tid)
        }
        pub fn name(&self) -> Option<&str> {
            None
        }
    }
    pub fn current() -> Thread {
        Thread { tid: sched::current() }
    }
    pub fn park() {
        sched::park()
    }

    pub struct Scope<'scope, 'env: 'scope> {
        tids: Arc<Mutex<Vec<usize>>>,
        scope: ::std::marker::PhantomData<&'scope mut &'scope ()>,
        env: ::std::marker::PhantomData<&'env mut &'env ()>,
    }
    pub struct ScopedJoinHandle<'scope, T> {
        h: JoinHandle<T>,
        scope: ::std::marker::PhantomData<&'scope ()>,
    }
    impl<'scope, T> ScopedJoinHandle<'scope, T> {
        pub fn join(self) -> Result<T> {
            self.h.join()
        }
        pub fn is_finished(&self) -> bool {
            self.h.is_finished()
        }
    }
    impl<'scope, 'env> Scope<'scope, 'env> {
        pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where
            F: FnOnce() -> T + Send + 'scope,
            T: Send + 'scope,
        {
            let out = Arc::new(Mutex::new(None));
            let o = out.clone();
            let body: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
                let r = f();
                *o.lock().unwrap() = Some(r);
            });
            // The scope joins all of its threads before it ends.
            let body: Box<dyn FnOnce() + Send + 'static> = unsafe { ::std::mem::transmute(body) };
            let tid = sched::spawn(body);
            self.tids.lock().unwrap().push(tid);
            ScopedJoinHandle { h: JoinHandle { tid, out }, scope: ::std::marker::PhantomData }
        }
    }
    pub fn scope<'env, F, T>(f: F) -> T
    where
        F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
    {
        let s = Scope { tids: Arc::new(Mutex::new(vec![])), scope: ::std::marker::PhantomData, env: ::std::marker::PhantomData };
        let r = f(&s);
        loop {
            let t = s.tids.lock().unwrap().pop();
            match t {
                Some(t) => sched::join(t),
                None => return r,
            }
        }
    }

    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let out = Arc::new(Mutex::new(None));
        let o = out.clone();
        let tid = sched::spawn(Box::new(move || {
            let r = f();
            *o.lock().unwrap() = Some(r);
        }));
        JoinHandle { tid, out }
    }

    #[derive(Default)]
    pub struct Builder {}
    impl Builder {
        pub fn new() -> Builder {
            Builder {}
        }
        pub fn name(self, _: String) -> Builder {
            self
        }
        pub fn stack_size(self, _: usize) -> Builder {
            self
        }
        pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send + 'static,
        {
            Ok(spawn(f))
        }
    }

    pub fn yield_now() {
        sched::yield_now()
    }
    pub fn sleep(_: Duration) {
        sched::yield_now()
    }
    pub fn available_parallelism() -> ::std::io::Result<::std::num::NonZeroUsize> {
        Ok(::std::num::NonZeroUsize::new(4).unwrap())
    }
}

pub mod sync {
    pub use ::std::sync::{Arc, LazyLock, LockResult, Once, OnceState, OnceLock, PoisonError, TryLockError, TryLockResult, Weak};

    use crate::sched::{self, Obj};
    use ::std::cell::UnsafeCell;
    use ::std::ops::{Deref, DerefMut};

    // ---- Mutex

    #[derive(Default)]
    pub struct Mutex<T: ?Sized> {
        obj: Obj,
        poisoned: ::std::sync::atomic::AtomicBool,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

    pub struct MutexGuard<'a, T: ?Sized> {
        m: &'a Mutex<T>,
    }

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { obj: Obj::new(), poisoned: ::std::sync::atomic::AtomicBool::new(false), data: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.data.into_inner())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            sched::lock(&self.obj, true);
            let g = MutexGuard { m: self };
            if self.is_poisoned() {
                Err(PoisonError::new(g))
            } else {
                Ok(g)
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if !sched::try_lock(&self.obj, true) {
                return Err(TryLockError::WouldBlock);
            }
            let g = MutexGuard { m: self };
            if self.is_poisoned() {
                Err(TryLockError::Poisoned(PoisonError::new(g)))
            } else {
                Ok(g)
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.poisoned.load(::std::sync::atomic::Ordering::Relaxed)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.data.get_mut())
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.m.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.m.data.get() }
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if ::std::thread::panicking() {
                self.m.poisoned.store(true, ::std::sync::atomic::Ordering::Relaxed);
            }
            sched::unlock(&self.m.obj, true);
        }
    }
    impl<T: ::std::fmt::Debug> ::std::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            f.write_str("Mutex")
        }
    }

    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ::std::fmt::Debug + ?Sized> ::std::fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            (**self).fmt(f)
        }
    }

    // ---- RwLock

    #[derive(Default)]
    pub struct RwLock<T: ?Sized> {
        obj: Obj,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        m: &'a RwLock<T>,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        m: &'a RwLock<T>,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { obj: Obj::new(), data: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.data.into_inner())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }
    impl<T: ::std::fmt::Debug> ::std::fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            f.write_str("RwLock")
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            sched::lock(&self.obj, false);
            Ok(RwLockReadGuard { m: self })
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            sched::lock(&self.obj, true);
            Ok(RwLockWriteGuard { m: self })
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.data.get_mut())
        }
        pub fn is_poisoned(&self) -> bool {
            false
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            if sched::try_lock(&self.obj, false) {
                Ok(RwLockReadGuard { m: self })
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            if sched::try_lock(&self.obj, true) {
                Ok(RwLockWriteGuard { m: self })
            } else {
                Err(TryLockError::WouldBlock)
            }
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.m.data.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.m.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.m.data.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            sched::unlock(&self.m.obj, false);
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            sched::unlock(&self.m.obj, true);
        }
    }

    // ---- Condvar

    #[derive(Default)]
    pub struct Condvar {
        obj: Obj,
    }
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { obj: Obj::new() }
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let m = g.m;
            ::std::mem::forget(g);
            sched::wait(&self.obj, &m.obj);
            Ok(MutexGuard { m })
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            mut f: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        /// A wait that may time out at once: both are explored by the caller's schedule.
        pub fn wait_timeout<'a, T>(
            &self,
            g: MutexGuard<'a, T>,
            _: ::std::time::Duration,
        ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let m = g.m;
            drop(g);
            sched::yield_now();
            sched::lock(&m.obj, true);
            Ok((MutexGuard { m }, WaitTimeoutResult(true)))
        }
        pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            d: ::std::time::Duration,
            mut f: F,
        ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let (mut g, _) = self.wait_timeout(g, d)?;
            let timed_out = f(&mut *g);
            Ok((g, WaitTimeoutResult(timed_out)))
        }
        pub fn notify_one(&self) {
            sched::notify(&self.obj, false)
        }
        pub fn notify_all(&self) {
            sched::notify(&self.obj, true)
        }
    }

    // ---- Barrier

    pub struct Barrier {
        n: usize,
        state: Mutex<(usize, usize)>, // waiting, generation
        cv: Condvar,
    }
    pub struct BarrierWaitResult(bool);
    impl BarrierWaitResult {
        pub fn is_leader(&self) -> bool {
            self.0
        }
    }
    impl Barrier {
        pub const fn new(n: usize) -> Self {
            Barrier { n, state: Mutex::new((0, 0)), cv: Condvar::new() }
        }
        pub fn wait(&self) -> BarrierWaitResult {
            let mut s = self.state.lock().unwrap();
            s.0 += 1;
            if s.0 >= self.n {
                *s = (0, s.1 + 1);
                self.cv.notify_all();
                return BarrierWaitResult(true);
            }
            let generation = s.1;
            while s.1 == generation {
                s = self.cv.wait(s).unwrap();
            }
            BarrierWaitResult(false)
        }
    }

    // ---- Channels

    pub mod mpsc {
        pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};

        use super::{Arc, Condvar, Mutex};
        use ::std::collections::VecDeque;

        struct Chan<T> {
            q: Mutex<(VecDeque<T>, usize, bool)>, // queue, senders, receiver alive
            cv: Condvar,
            cap: usize,
        }
        pub struct Sender<T>(Arc<Chan<T>>);
        pub type SyncSender<T> = Sender<T>;
        pub struct Receiver<T>(Arc<Chan<T>>);

        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            sync_channel(usize::MAX)
        }
        pub fn sync_channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
            let c = Arc::new(Chan { q: Mutex::new((VecDeque::new(), 1, true)), cv: Condvar::new(), cap: cap.max(1) });
            (Sender(c.clone()), Receiver(c))
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                let mut q = self.0.q.lock().unwrap();
                while q.2 && q.0.len() >= self.0.cap {
                    q = self.0.cv.wait(q).unwrap();
                }
                if !q.2 {
                    return Err(SendError(t));
                }
                q.0.push_back(t);
                drop(q);
                self.0.cv.notify_all();
                Ok(())
            }
            pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
                let mut q = self.0.q.lock().unwrap();
                if !q.2 {
                    return Err(TrySendError::Disconnected(t));
                }
                if q.0.len() >= self.0.cap {
                    return Err(TrySendError::Full(t));
                }
                q.0.push_back(t);
                drop(q);
                self.0.cv.notify_all();
                Ok(())
            }
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.q.lock().unwrap().1 += 1;
                Sender(self.0.clone())
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                if let Ok(mut q) = self.0.q.lock() {
                    q.1 -= 1;
                }
                self.0.cv.notify_all();
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                if let Ok(mut q) = self.0.q.lock() {
                    q.2 = false;
                }
                self.0.cv.notify_all();
            }
        }
        impl<T> Receiver<T> {
            pub fn recv(&self) -> Result<T, RecvError> {
                let mut q = self.0.q.lock().unwrap();
                loop {
                    if let Some(t) = q.0.pop_front() {
                        drop(q);
                        self.0.cv.notify_all();
                        return Ok(t);
                    }
                    if q.1 == 0 {
                        return Err(RecvError);
                    }
                    q = self.0.cv.wait(q).unwrap();
                }
            }
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                let mut q = self.0.q.lock().unwrap();
                match q.0.pop_front() {
                    Some(t) => {
                        drop(q);
                        self.0.cv.notify_all();
                        Ok(t)
                    }
                    None if q.1 == 0 => Err(TryRecvError::Disconnected),
                    None => Err(TryRecvError::Empty),
                }
            }
            /// The time may be over at once: both are explored by the caller's schedule.
            pub fn recv_timeout(&self, _: ::std::time::Duration) -> Result<T, RecvTimeoutError> {
                crate::sched::yield_now();
                self.try_recv().map_err(|e| match e {
                    TryRecvError::Empty => RecvTimeoutError::Timeout,
                    TryRecvError::Disconnected => RecvTimeoutError::Disconnected,
                })
            }
            pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
                ::std::iter::from_fn(move || self.recv().ok())
            }
            pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
                ::std::iter::from_fn(move || self.try_recv().ok())
            }
        }
        pub struct IntoIter<T>(Receiver<T>);
        impl<T> Iterator for IntoIter<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        impl<T> IntoIterator for Receiver<T> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                IntoIter(self)
            }
        }
    }

    // ---- Atomics

    pub mod atomic {
        pub use ::std::sync::atomic::Ordering;

        use crate::sched::{self, Obj};

        pub fn compiler_fence(_: Ordering) {}

        pub fn fence(_: Ordering) {
            sched::fence()
        }

        macro_rules! atomic {
            ($name:ident, $t:ty, $to:expr, $from:expr) => {
                pub struct $name {
                    obj: Obj,
                    init: $t,
                }
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        $name { obj: Obj::new(), init: v }
                    }
                    fn enc(v: $t) -> u64 {
                        ($to)(v)
                    }
                    fn dec(v: u64) -> $t {
                        ($from)(v)
                    }
                    pub fn into_inner(self) -> $t {
                        Self::dec(sched::load(&self.obj, Self::enc(self.init), Ordering::SeqCst))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        Self::dec(sched::load(&self.obj, Self::enc(self.init), o))
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        sched::rmw(&self.obj, Self::enc(self.init), o, false, &mut |_| Some(Self::enc(v)));
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        Self::dec(sched::rmw(&self.obj, Self::enc(self.init), o, true, &mut |_| Some(Self::enc(v))))
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, _: Ordering) -> Result<$t, $t> {
                        let mut ok = false;
                        let old = sched::rmw(&self.obj, Self::enc(self.init), o, true, &mut |x| {
                            ok = Self::dec(x) == a;
                            if ok { Some(Self::enc(b)) } else { None }
                        });
                        if ok { Ok(Self::dec(old)) } else { Err(Self::dec(old)) }
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(a, b, o, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut ok = false;
                        let old = sched::rmw(&self.obj, Self::enc(self.init), o, true, &mut |x| {
                            let n = f(Self::dec(x));
                            ok = n.is_some();
                            n.map(Self::enc)
                        });
                        if ok { Ok(Self::dec(old)) } else { Err(Self::dec(old)) }
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl Default for $name {
                    fn default() -> Self {
                        Self::new(Default::default())
                    }
                }
                impl ::std::fmt::Debug for $name {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
                        f.write_str(stringify!($name))
                    }
                }
            };
        }
        atomic!(AtomicBool, bool, |v: bool| v as u64, |v: u64| v != 0);
        macro_rules! bits {
            ($name:ident, $t:ty) => {
                impl $name {
                    pub fn fetch_and(&self, d: $t, o: Ordering) -> $t {
                        Self::dec(sched::rmw(&self.obj, Self::enc(self.init), o, true, &mut |x| Some(Self::enc(Self::dec(x) & d))))
                    }
                    pub fn fetch_or(&self, d: $t, o: Ordering) -> $t {
                        Self::dec(sched::rmw(&self.obj, Self::enc(self.init), o, true, &mut |x| Some(Self::enc(Self::dec(x) | d))))
                    }
                    pub fn fetch_xor(&self, d: $t, o: Ordering) -> $t {
                        Self::dec(sched::rmw(&self.obj, Self::enc(self.init), o, true, &mut |x| Some(Self::enc(Self::dec(x) ^ d))))
                    }
                }
            };
        }
        bits!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.fetch_xor(true, o)
            }
        }
        macro_rules! int {
            ($name:ident, $t:ty) => {
                atomic!($name, $t, |v: $t| v as u64, |v: u64| v as $t);
                bits!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, d: $t, o: Ordering) -> $t {
                        Self::dec(sched::rmw(&self.obj, Self::enc(self.init), o, true, &mut |x| Some(Self::enc(Self::dec(x).wrapping_add(d)))))
                    }
                    pub fn fetch_sub(&self, d: $t, o: Ordering) -> $t {
                        Self::dec(sched::rmw(&self.obj, Self::enc(self.init), o, true, &mut |x| Some(Self::enc(Self::dec(x).wrapping_sub(d)))))
                    }
                    pub fn fetch_min(&self, d: $t, o: Ordering) -> $t {
                        Self::dec(sched::rmw(&self.obj, Self::enc(self.init), o, true, &mut |x| Some(Self::enc(Self::dec(x).min(d)))))
                    }
                    pub fn fetch_max(&self, d: $t, o: Ordering) -> $t {
                        Self::dec(sched::rmw(&self.obj, Self::enc(self.init), o, true, &mut |x| Some(Self::enc(Self::dec(x).max(d)))))
                    }
                }
            };
        }
        int!(AtomicUsize, usize);
        int!(AtomicIsize, isize);
        int!(AtomicU8, u8);
        int!(AtomicI8, i8);
        int!(AtomicU16, u16);
        int!(AtomicI16, i16);
        int!(AtomicU32, u32);
        int!(AtomicI32, i32);
        int!(AtomicU64, u64);
        int!(AtomicI64, i64);
    }
}
