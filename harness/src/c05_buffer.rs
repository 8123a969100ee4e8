//! The buffers of recent commitments.
use crate::env::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::buffer::RingBuffer;
use elusiv::state::commitment::{BaseCommitmentBufferAccount, CommitmentBufferAccount};
use elusiv_types::accounts::{ProgramAccount, SizedAccount};

const N: usize = 128;
/// The i-th of many different values, with long common prefixes among them
fn val(i: usize) -> [u8; 32] {
    let mut v = [7u8; 32];
    v[(i % 4) * 10 + 1] = 100 + (i / 4) as u8;
    v
}
macro_rules! checks { ($name:ident, $t:ident) => {
    mod $name {
        use super::*;
        fn buf() -> $t<'static> { $t::new(bytes(<$t as SizedAccount>::SIZE)).unwrap() }
        /// A buffer after `n` insertions of different values
        fn filled(n: usize) -> $t<'static> { let mut b = buf(); for i in 0..n { let _ = b.try_insert(&val(i)); } b }
        /// Any value, after `n` others: accepted exactly if it is none of the last 128
        pub fn insert(n: usize, x: [u8; 32]) -> bool {
            noabort(true);
            let mut b = filled(n);
            let mut inside = false;
            let mut place = N;
            let first = if n > N { n - N } else { 0 };
            for i in first..n { if val(i) == x { inside = true; place = i; } }
            prop!(b.contains(&x) == inside, "the buffer remembers exactly the last 128 values");
            prop!(b.find_position(&x) == if inside { Some(place % N) } else { None }, "a value is found at its place");
            let (len, ptr) = (b.len(), b.ptr());
            let r = b.try_insert(&x);
            prop!(r.is_err() == inside, "a value is refused exactly if it is remembered");
            if r.is_err() {
                prop!(b.len() == len && b.ptr() == ptr, "a refused value changes nothing");
                for i in [first, (first + n) / 2, n - 1] { prop!(b.contains(&val(i)), "a refused value replaces nothing"); }
                true
            } else {
                prop!(b.contains(&x) && b.try_insert(&x).is_err(), "an accepted value is remembered");
                let first = if n + 1 > N { n + 1 - N } else { 0 };
                for k in [first, first + 1, (first + n) / 2, n.wrapping_sub(1)] { if k >= first && k < n { prop!(b.contains(&val(k)), "only the oldest value is replaced"); } }
                if first > 0 { prop!(!b.contains(&val(first - 1)), "the oldest value is forgotten"); }
                prop!(b.len() == if n < N { n + 1 } else { N }, "the number of remembered values");
                false
            }
        }
        /// A value stays remembered for exactly the next 127 insertions
        pub fn window(before: usize, x: [u8; 32], after: usize) -> bool {
            noabort(true);
            let mut b = filled(before);
            prop!(b.try_insert(&x).is_ok(), "a new value is accepted");
            for i in 0..after { prop!(b.try_insert(&val(before + i)).is_ok(), "new values are accepted"); }
            let again = b.try_insert(&x);
            prop!(again.is_err() == (after < N), "a value is refused for the next 127 insertions");
            after < N
        }
        /// A forgotten value makes room for nothing else
        pub fn release(before: usize, which: usize, x: [u8; 32]) -> bool {
            let mut b = filled(before);
            let first = if before > N { before - N } else { 0 };
            let v = val(first + which);
            let p = b.find_position(&v).unwrap();
            b.set_value(p, &[0u8; 32]);
            prop!(!b.contains(&v), "a released value is not remembered");
            let mut inside = x == [0u8; 32];
            for i in first..before { if i != first + which && val(i) == x { inside = true; } }
            prop!(b.contains(&x) == inside, "all others are");
            prop!(b.try_insert(&v).is_ok() && b.contains(&v), "a released value can be inserted again");
            inside
        }
    }
} }
checks!(base, BaseCommitmentBufferAccount);
checks!(commitment, CommitmentBufferAccount);

fn fill(n: u64) -> usize { [0, 1, 127, 128, 129, 200, 256, 2, 3, 64, 130, 255, 257][n as usize] }
/// A value that may be any of these
fn value() -> [u8; 32] {
    let b: [u8; 5] = any();
    let mut x = [7u8; 32];
    for (i, p) in [1usize, 11, 21, 31, 0].iter().enumerate() { x[*p] = b[i]; }
    x
}
fn any_insert(fills: u8, both: bool) -> bool {
    let n: u8 = any();
    let which = any_bool();
    let x = value();
    assume(n < fills && (both || which == (n & 1 == 1)));
    let n = fill(pin(n as u64));
    if pin(which as u64) == 1 { base::insert(n, x) } else { commitment::insert(n, x) }
}
#[no_mangle]
pub extern "C" fn c05_insert() { if any_insert(7, false) { reach!("refused"); } else { reach!("accepted"); } }
#[no_mangle]
pub extern "C" fn c05t_insert() { if any_insert(13, true) { reach!("refused"); } else { reach!("accepted"); } }

fn any_window(fills: u8, both: bool) -> bool {
    let n: u8 = any();
    let after: u8 = any();
    let low: [u8; 31] = any();
    let which = any_bool();
    assume(n < fills && after <= 130 && (after < 2 || after > 125 || after == 60) && (both || which == (n & 1 == 1)));
    let n = fill(pin(n as u64));
    let after = pin(after as u64) as usize;
    let mut x = [8u8; 32];
    x[1..].copy_from_slice(&low);
    if pin(which as u64) == 1 { base::window(n, x, after) } else { commitment::window(n, x, after) }
}
#[no_mangle]
pub extern "C" fn c05_window() { if any_window(7, false) { reach!("refused"); } else { reach!("accepted again"); } }
#[no_mangle]
pub extern "C" fn c05t_window() { if any_window(13, true) { reach!("refused"); } else { reach!("accepted again"); } }

fn any_release(fills: u8) -> bool {
    let n: u8 = any();
    let which: u8 = any();
    let x = value();
    assume(n > 1 && n < fills && which < 3);
    let n = fill(pin(n as u64));
    let first = if n > N { N } else { n };
    let which = [0, first / 2, first - 1][pin(which as u64) as usize];
    commitment::release(n, which, x)
}
#[no_mangle]
pub extern "C" fn c05_release() { if any_release(5) { reach!("another one"); } else { reach!("unknown"); } }
#[no_mangle]
pub extern "C" fn c05t_release() { if any_release(13) { reach!("another one"); } else { reach!("unknown"); } }
