//! The nullifier account: 16 child accounts, each a sorted map of 2^16 nullifier hashes.
use crate::env::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::state::nullifier::{NullifierAccount, NullifierChildAccount, NULLIFIERS_PER_ACCOUNT};
use elusiv_types::accounts::{ParentAccount, ProgramAccount, SizedAccount};
use elusiv_types::bytes::ElusivOption;
use solana_program::account_info::AccountInfo;

const N: usize = NULLIFIERS_PER_ACCOUNT;

/// little-endian 32-byte integer
fn u256(x: u64) -> [u8; 32] { let mut r = [0u8; 32]; r[..8].copy_from_slice(&x.to_le_bytes()); r }

/// Data of a child account whose map holds, in ascending order, the keys `base + 4 * i` for i < len
fn child(len: usize, base: u64) -> &'static mut [u8] {
    let d = bytes(<NullifierChildAccount as SizedAccount>::SIZE);
    d[0] = 1;
    let m = &mut d[1..];
    m[..4].copy_from_slice(&(len as u32).to_le_bytes());
    if len > 0 { m[6..8].copy_from_slice(&((len - 1) as u16).to_le_bytes()); }
    for i in 0..15 { let p = ((1 + i) * len / 16) as u16; m[8 + 2 * i..10 + 2 * i].copy_from_slice(&p.to_le_bytes()); }
    let next = 8 + 30;
    let prev = next + 2 * N;
    let keys = prev + 2 * N;
    for i in 0..len {
        m[next + 2 * i..next + 2 * i + 2].copy_from_slice(&(((i + 1) % N) as u16).to_le_bytes());
        let p = if i == 0 { 0 } else { i - 1 };
        m[prev + 2 * i..prev + 2 * i + 2].copy_from_slice(&(p as u16).to_le_bytes());
        m[keys + 32 * i..keys + 32 * i + 8].copy_from_slice(&(base + 4 * i as u64).to_le_bytes());
    }
    d
}

fn account(children: Vec<&'static mut [u8]>) -> NullifierAccount<'static, 'static, 'static> {
    let data = bytes(<NullifierAccount as SizedAccount>::SIZE);
    let mut c: Vec<Option<&'static AccountInfo<'static>>> = vec![];
    for (i, d) in children.into_iter().enumerate() { c.push(Some(acc(key(i as u8)).data(d))); }
    while c.len() < NullifierAccount::COUNT { c.push(None); }
    NullifierAccount::new_with_child_accounts(data, c).unwrap()
}

/// One full child account: a new nullifier is spent afterwards, everything spent before stays spent
#[no_mangle]
pub extern "C" fn c02_full_child() {
    let x: u32 = any();
    let window: u8 = any();
    let probe: u32 = any();
    let base = 1000u64;
    // insertion position: around the start, mid pointers, and the end of the map
    let lo: u64 = match window { 0 => 990, 1 => base + 4 * 4095, 2 => base + 4 * 32767, 3 => base + 4 * 65534, _ => { assume(false); 0 } };
    assume(x as u64 >= lo && (x as u64) < lo + 16);
    assume(probe as u64 >= lo - 4 && (probe as u64) < lo + 20);
    let mut a = account(vec![child(N, base), child(0, 0)]);
    a.set_nullifier_hash_count(&(N as u32));
    a.set_max_values(0, &ElusivOption::Some(u256(base + 4 * (N as u64 - 1))));
    let spent_before = |v: u64| v >= base && v <= base + 4 * (N as u64 - 1) && (v - base) % 4 == 0;
    let fresh = !spent_before(x as u64);
    prop!(a.can_insert_nullifier_hash(u256(x as u64)) == Ok(fresh), "a nullifier can be spent exactly if it was not spent before");
    let r = a.try_insert_nullifier_hash(u256(x as u64));
    prop!(r.is_ok() == fresh, "spending succeeds exactly once");
    let p_spent = spent_before(probe as u64) || probe == x;
    prop!(a.can_insert_nullifier_hash(u256(probe as u64)) == Ok(!p_spent), "spent nullifiers stay spent, others stay unspent");
    if !a.is_moved_nullifier_empty() {
        let r = a.move_nullifier_hashes_to_next_account();
        prop!(r.is_ok(), "moving succeeds");
        prop!(a.is_moved_nullifier_empty(), "nothing is left to move");
        prop!(a.can_insert_nullifier_hash(u256(probe as u64)) == Ok(!p_spent), "spent nullifiers stay spent after moving");
        if fresh && probe == x { reach!("moved"); }
    }
}
