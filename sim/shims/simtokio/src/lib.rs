//! tokio as the service sees it in the simulation: the real one, with tasks started through the
//! simulator and extra scheduling points at the locks.
pub use simtokio_macros::main;
pub use tokio::*;

pub use simrt::spawn;

pub mod task {
    pub use simrt::spawn;
    pub use tokio::task::*;

    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        simrt::spawn(async move { f() })
    }
    pub fn block_in_place<F, R>(f: F) -> R
    where
        F: FnOnce() -> R,
    {
        f()
    }

    pub struct JoinSet<T>(tokio::task::JoinSet<T>);
    impl<T> std::ops::Deref for JoinSet<T> {
        type Target = tokio::task::JoinSet<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<T> std::ops::DerefMut for JoinSet<T> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<T: 'static> Default for JoinSet<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet(tokio::task::JoinSet::new())
        }
        pub fn spawn<F>(&mut self, f: F) -> AbortHandle
        where
            F: std::future::Future<Output = T> + Send + 'static,
            T: Send,
        {
            match simrt::current_inst() {
                None => self.0.spawn(f),
                Some(i) => {
                    let h = self.0.spawn(simrt::CoFuture::new(i, false, f));
                    simrt::track(i, h.clone());
                    h
                }
            }
        }
    }
    impl<T: 'static> FromIterator<T> for JoinSet<T> {
        fn from_iter<I: IntoIterator<Item = T>>(_: I) -> Self {
            unimplemented!()
        }
    }
}

pub mod sync {
    pub use tokio::sync::*;

    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized>(tokio::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self {
            RwLock(tokio::sync::RwLock::new(t))
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            simrt::maybe_yield().await;
            self.0.read().await
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            simrt::maybe_yield().await;
            self.0.write().await
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
    }
    impl<T: ?Sized> std::ops::Deref for RwLock<T> {
        type Target = tokio::sync::RwLock<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }

    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized>(tokio::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Mutex(tokio::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            simrt::maybe_yield().await;
            self.0.lock().await
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
    }
    impl<T: ?Sized> std::ops::Deref for Mutex<T> {
        type Target = tokio::sync::Mutex<T>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
}
