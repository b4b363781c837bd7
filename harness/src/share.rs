//! Sharing between threads without the compiler's consent: a type that stops being `Send` or `Sync` must be
//! reported by the check, not break its build.

/// A reference any thread may use.
pub struct Share<'a, T>(&'a T);

unsafe impl<T> Send for Share<'_, T> {}
unsafe impl<T> Sync for Share<'_, T> {}

impl<'a, T> Share<'a, T> {
    pub fn new(t: &'a T) -> Self {
        Share(t)
    }
    pub fn get(&self) -> &'a T {
        self.0
    }
}

impl<T> Clone for Share<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Share<'_, T> {}

pub struct Sharing<T>(pub std::marker::PhantomData<T>);

impl<T: Send + Sync> Sharing<T> {
    pub fn allowed(&self) -> bool {
        true
    }
}

pub trait NotShared {
    fn allowed(&self) -> bool {
        false
    }
}

impl<T> NotShared for &Sharing<T> {}

/// Whether a (concrete) type is `Send` and `Sync`.
#[macro_export]
macro_rules! shared {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use $crate::share::NotShared as _;
        (&$crate::share::Sharing::<$t>(std::marker::PhantomData)).allowed()
    }};
}
