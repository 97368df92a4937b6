use std::cell::OnceCell;
#[derive(Debug, Clone)]
pub struct LazyCell<T>(OnceCell<T>);
impl<T> LazyCell<T> {
    pub fn new() -> Self { LazyCell(OnceCell::new()) }
    pub fn filled(&self) -> bool { self.0.get().is_some() }
    pub fn fill(&self, t: T) -> Result<(), T> { self.0.set(t) }
    pub fn borrow(&self) -> Option<&T> { self.0.get() }
    pub fn borrow_mut(&mut self) -> Option<&mut T> { self.0.get_mut() }
    pub fn borrow_with<F: FnOnce() -> T>(&self, f: F) -> &T { self.0.get_or_init(f) }
    pub fn into_inner(self) -> Option<T> { self.0.into_inner() }
}
