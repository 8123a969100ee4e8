//! The interface to the symbolic executor. The five functions below are intrinsics of /verif/symex;
//! the replay program defines them natively over the bytes of a solver model.
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: u8);
    fn sym_prop(c: u8, msg: *const u8, len: usize);
    fn sym_reach(msg: *const u8, len: usize);
    fn sym_observe(p: *const u8, n: usize);
    fn sym_noabort(on: u8);
    fn sym_pin(x: u64) -> u64;
}

/// Types of which every bit pattern is a value
pub unsafe trait Pod: Sized {}
macro_rules! pod { ($($t:ty),*) => { $( unsafe impl Pod for $t {} )* } }
pod!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
unsafe impl<T: Pod, const N: usize> Pod for [T; N] {}

/// A fresh, unconstrained value
pub fn any<T: Pod>() -> T {
    let mut x = std::mem::MaybeUninit::<T>::uninit();
    unsafe {
        sym_bytes(x.as_mut_ptr() as *mut u8, std::mem::size_of::<T>());
        x.assume_init()
    }
}
pub fn any_bool() -> bool { any::<u8>() & 1 == 1 }
#[inline(always)]
pub fn assume(c: bool) { unsafe { sym_assume(c as u8) } }
#[inline(always)]
pub fn prop_(c: bool, m: &'static str) { unsafe { sym_prop(c as u8, m.as_ptr(), m.len()) } }
#[inline(always)]
pub fn reach_(m: &'static str) { unsafe { sym_reach(m.as_ptr(), m.len()) } }
/// Makes a value part of the comparison between the symbolic and the native run of a path
#[inline(always)]
pub fn observe<T: Pod>(x: T) { unsafe { sym_observe(&x as *const T as *const u8, std::mem::size_of::<T>()) } }

/// Asserts a part of the property under check
#[macro_export]
macro_rules! prop { ($c:expr, $m:literal) => { $crate::sym::prop_($c, $m) }; }
/// Reachability witness: the check fails as an error if no execution gets here
#[macro_export]
macro_rules! reach { ($m:literal) => { $crate::sym::reach_($m) }; }
/// From here on, an abort of the code under test breaks the property
#[inline(always)]
pub fn noabort(on: bool) { unsafe { sym_noabort(on as u8) } }
/// Splits the path on every feasible value of `x` (symbolically; the identity natively)
#[inline(always)]
pub fn pin(x: u64) -> u64 { unsafe { sym_pin(x) } }
