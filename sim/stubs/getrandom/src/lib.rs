//! Stand-in for the `getrandom` crate: the simulator is the system random source.
use std::mem::MaybeUninit;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(match NonZeroU32::new(1 << 31) { Some(x) => x, None => unreachable!() });
    pub const UNEXPECTED: Error = Error(match NonZeroU32::new((1 << 31) + 2) { Some(x) => x, None => unreachable!() });
    pub fn raw_os_error(self) -> Option<i32> { None }
    pub const fn code(self) -> NonZeroU32 { self.0 }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("simulated random source failure") }
}
impl std::error::Error for Error {}

/// Fills the buffer and returns true, or returns false for a failure.
pub type Hook = fn(&mut [u8]) -> bool;
static HOOK: AtomicUsize = AtomicUsize::new(0);

pub fn sim_set_hook(h: Hook) { HOOK.store(h as usize, Ordering::SeqCst) }

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let h = HOOK.load(Ordering::SeqCst);
    if h == 0 { return Err(Error::UNSUPPORTED); }
    let h: Hook = unsafe { std::mem::transmute(h) };
    if h(dest) { Ok(()) } else { Err(Error::UNEXPECTED) }
}

pub fn getrandom_uninit(dest: &mut [MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    for b in dest.iter_mut() { b.write(0); }
    let s = unsafe { std::slice::from_raw_parts_mut(dest.as_mut_ptr() as *mut u8, dest.len()) };
    getrandom(s)?;
    Ok(s)
}
