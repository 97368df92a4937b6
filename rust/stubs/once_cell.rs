pub mod sync {
    use std::ops::Deref;
    use std::sync::OnceLock;
    pub struct Lazy<T, F = fn() -> T> { c: OnceLock<T>, f: F }
    impl<T, F: Fn() -> T> Lazy<T, F> {
        pub const fn new(f: F) -> Self { Lazy { c: OnceLock::new(), f } }
        pub fn force(t: &Self) -> &T { t.c.get_or_init(|| (t.f)()) }
    }
    impl<T, F> Lazy<T, F> { pub fn get(t: &Self) -> Option<&T> { t.c.get() } }
    impl<T, F: Fn() -> T> Deref for Lazy<T, F> { type Target = T; fn deref(&self) -> &T { Self::force(self) } }
}
pub mod unsync {
    use std::cell::OnceCell;
    use std::ops::{Deref, DerefMut};
    pub struct Lazy<T, F = fn() -> T> { c: OnceCell<T>, f: F }
    impl<T, F: Fn() -> T> Lazy<T, F> { pub const fn new(f: F) -> Self { Lazy { c: OnceCell::new(), f } } }
    impl<T, F: Fn() -> T> Deref for Lazy<T, F> { type Target = T; fn deref(&self) -> &T { self.c.get_or_init(|| (self.f)()) } }
    impl<T, F: Fn() -> T> DerefMut for Lazy<T, F> {
        fn deref_mut(&mut self) -> &mut T { self.c.get_or_init(|| (self.f)()); self.c.get_mut().unwrap() }
    }
    unsafe impl<T, F> Sync for Lazy<T, F> {}
}
