//! Which hashes a batch consists of, and where they end up in the tree.
use crate::env::*;
use crate::sym::*;
use crate::tree::*;
use crate::{prop, reach};
use elusiv::commitment::poseidon_hash::BinarySpongeHashingState;
use elusiv::fields::u256_to_fr_skip_mr;
use elusiv::processor::finalize_commitment_hash;
use elusiv::state::commitment::CommitmentHashingAccount;
use elusiv::state::storage::{HISTORY_ARRAY_SIZE, MT_COMMITMENT_COUNT};
use elusiv_types::accounts::{ProgramAccount, SizedAccount};

pub fn hashing() -> CommitmentHashingAccount<'static> { CommitmentHashingAccount::new(bytes(<CommitmentHashingAccount as SizedAccount>::SIZE)).unwrap() }
fn tagged(kind: u8, n: usize, tag: u32) -> [u8; 32] { let mut v = [0u8; 32]; v[0] = n as u8; v[1] = kind; v[4..8].copy_from_slice(&tag.to_le_bytes()); v }
/// Number of hashes of a batch: those inside of its subtree, and those up to the root
pub fn hashes(rate: usize) -> usize { (1 << rate) - 1 + 20 - rate }

/// Each hash of a batch gets the right two inputs, in the right order
fn inputs(max_rate: u8) {
    let rate: u8 = any();
    let ordering: u32 = any();
    let tag: u32 = any();
    let c0: [u8; 32] = any();
    let s0: [u8; 32] = any();
    let k: u8 = any();
    assume(rate <= max_rate);
    let rate = pin(rate as u64) as usize;
    assume((ordering as usize) < MT_COMMITMENT_COUNT && ordering & ((1 << rate) - 1) == 0);
    let mut h = hashing();
    let mut sib = [[0u8; 32]; 20];
    for i in 0..20 { sib[i] = tagged(1, i, tag); }
    sib[rate] = s0;
    let mut com = [[0u8; 32]; 16];
    for i in 0..16 { com[i] = tagged(2, i, tag); }
    com[0] = c0;
    noabort(true);
    prop!(h.setup(ordering, &sib).is_ok(), "set up");
    prop!(h.reset(rate as u32, 7, &com).is_ok(), "reset");
    prop!(h.get_instruction() == 0 && h.get_finalization_ix() == 0 && h.get_is_active() && h.get_batching_rate() == rate as u32 && h.get_ordering() == ordering && h.get_fee_version() == 7, "a batch starts from scratch");
    let all = hashes(rate);
    for i in 0..all { h.save_finished_hash(i, &BinarySpongeHashingState([u256_to_fr_skip_mr(&tagged(3, i, tag)), u256_to_fr_skip_mr(&[0; 32]), u256_to_fr_skip_mr(&[0; 32])])); }
    assume((k as usize) < all);
    let k = pin(k as u64) as usize;
    let st = h.next_hashing_state(k);
    // inputs of the k-th hash: bottom up; inside of the batch from left to right, then with the siblings
    let (mut first, mut level, mut below) = (0, 0, 0);
    while level < rate && k >= first + (1 << (rate - level - 1)) { below = first; first += 1 << (rate - level - 1); level += 1; }
    let (l, r) = if level < rate {
        let j = 2 * (k - first);
        if level == 0 { (com[j], com[j + 1]) } else { (tagged(3, below + j, tag), tagged(3, below + j + 1, tag)) }
    } else {
        let level = rate + k - first;
        let own = if k == 0 { com[0] } else { tagged(3, k - 1, tag) };
        if (ordering >> level) & 1 == 1 { (sib[level], own) } else { (own, sib[level]) }
    };
    prop!(st == BinarySpongeHashingState([u256_to_fr_skip_mr(&[0; 32]), u256_to_fr_skip_mr(&l), u256_to_fr_skip_mr(&r)]), "a hash is computed from the left and right node below it");
}
#[no_mangle]
pub extern "C" fn c08_inputs() { inputs(4); reach!("all hashes"); }
/// The finished hashes of a batch end up at their places in the tree, and nothing else changes
fn finalize(max_rate: u8) {
    let rate: u8 = any();
    let n: u32 = any();
    let tag: u32 = any();
    let root: [u8; 32] = any();
    let early: u8 = any();
    let count: u32 = any();
    assume(rate <= max_rate);
    let rate = pin(rate as u64) as usize;
    let size = 1u32 << rate;
    assume((n as usize) < MT_COMMITMENT_COUNT / size as usize);
    assume(n < 3 || n as usize > MT_COMMITMENT_COUNT / size as usize - 3 || n as usize == MT_COMMITMENT_COUNT / 2 / size as usize);
    let n = pin(n as u64) as u32;
    let ordering = n * size;
    assume(count < 1000);
    let count = pin((count % HISTORY_ARRAY_SIZE as u32 == 99) as u64) as u32 * 99;
    let mut s = storage_full();
    s.set_next_commitment_ptr(&ordering);
    s.set_mt_roots_count(&count);
    // a neighbour of the batch on each level
    for level in 0..=20usize {
        let first = (ordering as usize) >> (20 - level);
        if first > 0 { s.set_node(&tagged(9, level, tag), first - 1, level).unwrap(); }
    }
    let mut h = hashing();
    h.setup(ordering, &[[0; 32]; 20]).unwrap();
    let mut com = [[0u8; 32]; 16];
    for i in 0..16 { com[i] = tagged(2, i, tag); }
    h.reset(rate as u32, 0, &com).unwrap();
    let all = hashes(rate);
    for k in 0..all {
        let v = if k + 1 == all { root } else { tagged(3, k, tag) };
        h.save_finished_hash(k, &BinarySpongeHashingState([u256_to_fr_skip_mr(&v); 3]));
    }
    noabort(true);
    // not before all hashes are computed
    let ixs = elusiv::commitment::commitment_hash_computation_instructions(rate as u32).len() as u32;
    assume((early as u32) < ixs);
    h.set_instruction(&(early as u32));
    prop!(finalize_commitment_hash(&mut h, &mut s).is_err(), "an unfinished batch is not inserted");
    prop!(s.get_next_commitment_ptr() == ordering && s.get_mt_roots_count() == count, "an unfinished batch is not inserted");
    h.set_instruction(&ixs);
    for i in 0..=rate {
        prop!(s.get_next_commitment_ptr() == ordering, "the leaves count once all nodes are in place");
        prop!(h.get_is_active() && h.get_finalization_ix() == i as u32, "the batch stays active until it is inserted");
        prop!(finalize_commitment_hash(&mut h, &mut s).is_ok(), "a finished batch is inserted");
    }
    prop!(finalize_commitment_hash(&mut h, &mut s).is_err(), "a batch is inserted once");
    prop!(!h.get_is_active() && !h.get_setup(), "afterwards the hashing account is free");
    prop!(s.get_next_commitment_ptr() == ordering + size, "the tree has grown by the batch");
    prop!(s.get_mt_roots_count() == count + 1 && s.get_active_mt_root_history(count as usize % HISTORY_ARRAY_SIZE) == root, "the new root is in the history");
    prop!(s.get_root() == Ok(root), "the last hash is the root");
    let mut k = 0;
    for i in 0..size as usize { prop!(s.get_node(ordering as usize + i, 20) == Ok(com[i]), "the leaves are the commitments, in order"); }
    for level in (0..20usize).rev() {
        let first = (ordering as usize) >> (20 - level);
        let width = if 20 - level <= rate { 1 << (rate - (20 - level)) } else { 1 };
        for j in 0..width {
            let v = if k + 1 == all { root } else { tagged(3, k, tag) };
            prop!(s.get_node(first + j, level) == Ok(v), "each hash is the node above its two inputs");
            k += 1;
        }
    }
    for level in 0..=20usize {
        let first = (ordering as usize) >> (20 - level);
        if first > 0 { prop!(s.get_node(first - 1, level) == Ok(tagged(9, level, tag)), "the other nodes stay as they were"); }
    }
}
#[no_mangle]
pub extern "C" fn c08_finalize() { finalize(4); reach!("inserted"); }
