//! Custom buffers whose whole content the harness can observe.
use midi2::buffer::*;
use midi2::error::BufferOverflow;
use std::cell::Cell;

thread_local! {
    pub static LAST: Cell<usize> = const { Cell::new(0) };   // address of the most recently created spy vector
    pub static CAP: Cell<usize> = const { Cell::new(0) };    // capacity given to spies created by conversion / default
    pub static DIRT: Cell<u32> = const { Cell::new(0) };     // content given to units a spy gains when it grows
}
pub trait UnitX: Unit + Copy + 'static + std::fmt::Debug + PartialEq { fn ofu(x: u32) -> Self; }
impl UnitX for u8 { fn ofu(x: u32) -> u8 { x as u8 } }
impl UnitX for u32 { fn ofu(x: u32) -> u32 { x } }

macro_rules! spy {
    ($N:ident) => {
        #[derive(Debug, Clone, PartialEq)]
        pub struct $N<U: UnitX> { v: Box<Vec<U>>, cap: usize }
        impl<U: UnitX> $N<U> {
            pub fn over(v: Vec<U>, cap: usize) -> Self {
                let b = Box::new(v);
                LAST.with(|l| l.set(&*b as *const Vec<U> as usize));
                $N { v: b, cap }
            }
            pub fn capacity(&self) -> usize { self.cap }
        }
        impl<U: UnitX> Buffer for $N<U> { type Unit = U; fn buffer(&self) -> &[U] { &self.v } }
        impl<U: UnitX> BufferMut for $N<U> { fn buffer_mut(&mut self) -> &mut [U] { &mut self.v } }
    };
}
spy!(SpyV); // grows without bound
spy!(SpyF); // fixed size
spy!(SpyT); // resizable up to a capacity
impl<U: UnitX> BufferResize for SpyV<U> { fn resize(&mut self, n: usize) { self.v.resize(n, U::ofu(DIRT.with(|d| d.get()))) } }
impl<U: UnitX> BufferTryResize for SpyF<U> {
    fn try_resize(&mut self, n: usize) -> Result<(), BufferOverflow> { if n > self.v.len() { Err(BufferOverflow) } else { Ok(()) } }
}
impl<U: UnitX> BufferTryResize for SpyT<U> {
    fn try_resize(&mut self, n: usize) -> Result<(), BufferOverflow> {
        if n > self.cap { Err(BufferOverflow) } else { self.v.resize(n, U::ofu(DIRT.with(|d| d.get()))); Ok(()) }
    }
}
impl<U: UnitX> BufferDefault for SpyV<U> { fn default() -> Self { SpyV::over(vec![], 0) } }
impl<U: UnitX> BufferDefault for SpyF<U> { fn default() -> Self { let c = CAP.with(|c| c.get()); SpyF::over(vec![U::ofu(0); c], c) } }
impl<U: UnitX> BufferDefault for SpyT<U> { fn default() -> Self { SpyT::over(vec![], CAP.with(|c| c.get())) } }
impl<U: UnitX> FromBuffer<&[U]> for SpyV<U> { fn from_buffer(x: &[U]) -> Self { SpyV::over(x.to_vec(), x.len()) } }
impl<U: UnitX> FromBuffer<&[U]> for SpyF<U> { fn from_buffer(x: &[U]) -> Self { SpyF::over(x.to_vec(), x.len()) } }
impl<U: UnitX> FromBuffer<&[U]> for SpyT<U> { fn from_buffer(x: &[U]) -> Self { SpyT::over(x.to_vec(), CAP.with(|c| c.get()).max(x.len())) } }
