//! The sorted nullifier map: no key is ever lost, duplicated or mis-ordered.
use crate::sym::*;
use crate::{prop, reach};
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv::bytes::BorshSerDeSized;
use elusiv::map::{ElusivMap, ElusivMapError, ElusivMapValue, ElusivSet};
use elusiv::types::LazyField;

/// The reference: a sorted array of at most CAP keys
struct Ref<const CAP: usize> { r: Vec<u32>, n: usize }
enum Out { Dup, New, Max(u32) }
impl<const CAP: usize> Ref<CAP> {
    fn new() -> Self { Ref { r: vec![0; CAP + 1], n: 0 } }
    fn has(&self, k: u32) -> bool { let mut d = false; for j in 0..self.n { d |= self.r[j] == k; } d }
    fn insert(&mut self, k: u32) -> Out {
        if self.has(k) { return Out::Dup; }
        let mut j = self.n;
        while j > 0 && self.r[j - 1] > k { self.r[j] = self.r[j - 1]; j -= 1; }
        self.r[j] = k;
        if self.n == CAP { return Out::Max(self.r[CAP]); }
        self.n += 1;
        Out::New
    }
}

fn step<const CAP: usize>(map: &mut ElusivSet<'_, u32, CAP>, r: &mut Ref<CAP>, k: u32) {
    let res = map.try_insert_default(k);
    match r.insert(k) {
        Out::Dup => { prop!(matches!(res, Err(ElusivMapError::Duplicate(_))), "an inserted key is rejected as a duplicate"); }
        Out::New => { prop!(matches!(res, Ok(None)), "a new key is accepted"); }
        Out::Max(m) => match res {
            Ok(Some((x, ()))) => { prop!(x == m, "a full map hands out exactly its maximum"); }
            _ => { prop!(false, "a full map hands out its maximum"); }
        },
    }
}
fn check<const CAP: usize>(map: &mut ElusivSet<'_, u32, CAP>, r: &Ref<CAP>, probe: u32) {
    let inside = r.has(probe);
    prop!(map.contains(&probe).is_some() == inside, "contains is exactly membership");
    prop!(map.min() == r.r[0], "the minimum is the smallest key");
    prop!(map.max() == r.r[r.n - 1], "the maximum is the largest key");
    prop!(map.is_full() == (r.n == CAP), "a map is full at its capacity");
}

/// All histories of 4 inserts into an empty map of capacity 3
#[no_mangle]
pub extern "C" fn c01_history_cap3() {
    const CAP: usize = 3;
    let keys: [u32; 4] = any();
    let probe: u32 = any();
    noabort(true);
    let mut data = [0u8; <ElusivSet<'_, u32, CAP> as BorshSerDeSized>::SIZE];
    let mut map = ElusivSet::<u32, CAP>::new(&mut data[..]);
    let mut r = Ref::<CAP>::new();
    for k in keys { step(&mut map, &mut r, k); }
    check(&mut map, &r, probe);
    if r.n == CAP && r.has(probe) { reach!("full map, probe inside"); }
}
/// All histories of 5 inserts into an empty map of capacity 4
#[no_mangle]
pub extern "C" fn c01t_history_cap4() {
    const CAP: usize = 4;
    let keys: [u32; 5] = any();
    let probe: u32 = any();
    noabort(true);
    let mut data = [0u8; <ElusivSet<'_, u32, CAP> as BorshSerDeSized>::SIZE];
    let mut map = ElusivSet::<u32, CAP>::new(&mut data[..]);
    let mut r = Ref::<CAP>::new();
    for k in keys { step(&mut map, &mut r, k); }
    check(&mut map, &r, probe);
    if r.n == CAP && r.has(probe) { reach!("full map, probe inside"); }
}

/// A map filled with `fill` keys 100, 110, .. in one of four orders, then two arbitrary inserts: long enough for the
/// mid pointers to be used
fn filled<const CAP: usize>(data: &mut [u8], fill: usize, orders: u8, any_probe: bool) {
    let order: u8 = any();
    let keys: [u32; 2] = any();
    let probe: u32 = any();
    assume(order < orders);
    noabort(true);
    let mut map = ElusivSet::<u32, CAP>::new(data);
    let mut r = Ref::<CAP>::new();
    for i in 0..fill {
        let j = match order { 0 => i, 1 => fill - 1 - i, 2 => if i % 2 == 0 { i / 2 } else { fill - 1 - i / 2 }, _ => (i * 7) % fill };
        step(&mut map, &mut r, 100 + 10 * j as u32);
    }
    for k in keys { step(&mut map, &mut r, k); }
    if any_probe { check(&mut map, &r, probe); } else { for j in 0..r.n { let k = r.r[j]; prop!(map.contains(&k).is_some(), "every inserted key is found"); } }
    if r.has(keys[1]) { reach!("the last key was kept"); }
}
#[no_mangle]
pub extern "C" fn c01_mid_full() { let mut d = [0u8; <ElusivSet<'_, u32, 17> as BorshSerDeSized>::SIZE]; filled::<17>(&mut d, 17, 2, false); }
#[no_mangle]
pub extern "C" fn c01_mid_growing() { let mut d = [0u8; <ElusivSet<'_, u32, 20> as BorshSerDeSized>::SIZE]; filled::<20>(&mut d, 15, 2, false); }
#[no_mangle]
pub extern "C" fn c01_mid_lastslot() { let mut d = [0u8; <ElusivSet<'_, u32, 20> as BorshSerDeSized>::SIZE]; filled::<20>(&mut d, 19, 1, false); }
#[no_mangle]
pub extern "C" fn c01t_mid_full() { let mut d = [0u8; <ElusivSet<'_, u32, 17> as BorshSerDeSized>::SIZE]; filled::<17>(&mut d, 17, 4, true); }
#[no_mangle]
pub extern "C" fn c01t_mid_growing() { let mut d = [0u8; <ElusivSet<'_, u32, 20> as BorshSerDeSized>::SIZE]; filled::<20>(&mut d, 15, 4, true); }
#[no_mangle]
pub extern "C" fn c01t_mid_36() { let mut d = [0u8; <ElusivSet<'_, u32, 36> as BorshSerDeSized>::SIZE]; filled::<36>(&mut d, 31, 4, false); }
#[no_mangle]
pub extern "C" fn c01t_mid_32() { let mut d = [0u8; <ElusivSet<'_, u32, 33> as BorshSerDeSized>::SIZE]; filled::<33>(&mut d, 32, 4, false); }

#[derive(BorshSerialize, BorshDeserialize, Clone, Debug, PartialEq)]
struct Val(u8);
impl BorshSerDeSized for Val { const SIZE: usize = 1; }
impl ElusivMapValue for Val {}

/// A looked-up key comes with the value it was inserted with, and a dropped maximum with its own
#[no_mangle]
pub extern "C" fn c01_values() {
    const CAP: usize = 3;
    let keys: [u8; 4] = any();
    let probe: u8 = any();
    let mut data = [0u8; <ElusivMap<'_, u32, Val, CAP> as BorshSerDeSized>::SIZE];
    let mut map = ElusivMap::<u32, Val, CAP>::new(&mut data[..]);
    // values are a function of the key
    for k in keys {
        match map.try_insert(k as u32, &Val(k ^ 0x5a)) {
            Ok(Some((m, v))) => { prop!(v.0 == m as u8 ^ 0x5a, "a dropped key carries its own value"); }
            Err(ElusivMapError::Duplicate(v)) => { prop!(v.0 == k ^ 0x5a, "a duplicate reports the stored value"); }
            _ => {}
        }
    }
    if let Some(v) = map.contains(&(probe as u32)) { prop!(v.0 == probe ^ 0x5a, "a lookup returns the value inserted with the key"); reach!("found"); }
}

/// A reset map is an empty map
#[no_mangle]
pub extern "C" fn c01_reset() {
    const CAP: usize = 3;
    let keys: [u32; 2] = any();
    let after: [u32; 2] = any();
    let probe: u32 = any();
    let mut data = [0u8; <ElusivSet<'_, u32, CAP> as BorshSerDeSized>::SIZE];
    let mut map = ElusivSet::<u32, CAP>::new(&mut data[..]);
    for k in keys { let _ = map.try_insert_default(k); }
    map.reset();
    prop!(map.is_empty() && map.contains(&probe).is_none(), "nothing is left after a reset");
    let mut r = Ref::<CAP>::new();
    for k in after { step(&mut map, &mut r, k); }
    check(&mut map, &r, probe);
}
