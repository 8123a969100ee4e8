//! Which roots of the active tree are accepted.
use crate::env::*;
use crate::sym::*;
use crate::tree::*;
use crate::{prop, reach};
use elusiv::commitment::poseidon_hash::BinarySpongeHashingState;
use elusiv::fields::u256_to_fr_skip_mr;
use elusiv::processor::finalize_commitment_hash;
use elusiv::state::commitment::CommitmentHashingAccount;
use elusiv::state::storage::{StorageAccount, EMPTY_TREE, HISTORY_ARRAY_SIZE};
use elusiv_types::accounts::{ParentAccount, ProgramAccount, SizedAccount};

fn root(n: u32, tag: u32) -> [u8; 32] { let mut v = [0u8; 32]; v[..4].copy_from_slice(&n.to_le_bytes()); v[4..8].copy_from_slice(&tag.to_le_bytes()); v[30] = 0x11; v }
/// A batch whose hashes are done: only its finalization is missing
fn finish_batch(s: &mut Storage, ordering: u32, rate: u32, root: &[u8; 32]) {
    let mut h = CommitmentHashingAccount::new(bytes(<CommitmentHashingAccount as SizedAccount>::SIZE)).unwrap();
    h.setup(ordering, &[[0; 32]; 20]).unwrap();
    h.reset(rate, 0, &[[1; 32]; 16]).unwrap();
    h.set_instruction(&100);
    let hashes = (1usize << rate) - 1 + 20 - rate as usize;
    for i in 0..hashes { h.save_finished_hash(i, &BinarySpongeHashingState([u256_to_fr_skip_mr(root); 3])); }
    for _ in 0..=rate { finalize_commitment_hash(&mut h, s).unwrap(); }
    prop!(!h.get_is_active(), "after rate + 1 calls the batch is finished");
}
/// What instructions see that are not given the child accounts
fn bare(s: &Storage) -> Storage {
    let d = bytes(<StorageAccount as SizedAccount>::SIZE);
    let mut b = StorageAccount::new_with_child_accounts(d, vec![None; StorageAccount::COUNT]).unwrap();
    b.set_next_commitment_ptr(&s.get_next_commitment_ptr());
    b.set_mt_roots_count(&s.get_mt_roots_count());
    for i in 0..HISTORY_ARRAY_SIZE { b.set_active_mt_root_history(i, &s.get_active_mt_root_history(i)); }
    b
}

/// An empty tree has exactly one valid root
#[no_mangle]
pub extern "C" fn c07_empty_tree() {
    let r: [u8; 32] = any();
    let full = any_bool();
    let s = if full { storage_full() } else { storage_bare() };
    noabort(true);
    prop!(s.is_root_valid(&r) == (r == EMPTY_TREE[20]), "the only root of an empty tree is that of the empty tree");
    reach!("asked");
}

/// From an empty tree: after each batch, exactly the roots that ever were current are valid
fn from_empty(n: usize, max_rate: u8) {
    let rates: [u8; 4] = any();
    let tag: u32 = any();
    let r: [u8; 32] = any();
    let mut s = storage_full();
    let mut roots = vec![];
    let mut o = 0u32;
    for i in 0..n {
        assume(rates[i] <= max_rate);
        let rate = pin(rates[i] as u64) as u32;
        // a batch starts at a multiple of its size
        let size = 1u32 << rate;
        if o % size != 0 { assume(false); }
        let v = root(i as u32, tag);
        finish_batch(&mut s, o, rate, &v);
        o += size;
        prop!(s.get_next_commitment_ptr() == o, "the tree has grown by the batch");
        roots.push(v);
    }
    noabort(true);
    prop!(s.get_root() == Ok(roots[n - 1]), "the last batch's root is current");
    let b = bare(&s);
    for x in roots.iter() {
        prop!(b.is_root_valid(x), "a root is valid after later batches, and at once when it is current");
        prop!(s.is_root_valid(x), "a root is valid independent of the accounts passed along");
    }
    let mut known = false;
    for x in roots.iter() { known |= *x == r; }
    prop!(b.is_root_valid(&r) == known, "nothing but the recent roots is valid");
    prop!(s.is_root_valid(&r) == known, "nothing but the recent roots is valid");
}
#[no_mangle]
pub extern "C" fn c07_batches() { from_empty(3, 3); reach!("asked"); }
#[no_mangle]
pub extern "C" fn c07t_batches() { from_empty(4, 4); reach!("asked"); }

/// In a tree with many roots: the last 100 are valid, older ones are not
#[no_mangle]
pub extern "C" fn c07_window() {
    let before: u32 = any();
    let rate: u8 = any();
    let tag: u32 = any();
    let (k, t2): (u32, u32) = (any(), any());
    assume(before < 3 || (before > 97 && before < 102) || before == 199 || before == 250);
    assume(rate <= 4);
    let before = pin(before as u64) as u32;
    let rate = pin(rate as u64) as u32;
    let mut s = storage_full();
    // the history after `before` roots, each of a batch of this rate
    s.set_next_commitment_ptr(&(before << rate));
    s.set_mt_roots_count(&before);
    for n in 0..before { s.set_active_mt_root_history(n as usize % HISTORY_ARRAY_SIZE, &root(n, tag)); }
    let v = root(before, tag);
    finish_batch(&mut s, before << rate, rate, &v);
    noabort(true);
    let b = bare(&s);
    prop!(b.is_root_valid(&v) && s.is_root_valid(&v), "the current root is valid");
    let known = t2 == tag && k <= before && k as u64 + 100 > before as u64;
    prop!(b.is_root_valid(&root(k, t2)) == known, "exactly the last 100 roots are valid");
    if before == 250 { reach!("history wrapped around"); }
}

/// Resetting for the next tree forgets the roots of the old one
#[no_mangle]
pub extern "C" fn c07_reset() {
    let count: u32 = any();
    let ptr: u32 = any();
    let slot: u8 = any();
    let v: [u8; 32] = any();
    let r: [u8; 32] = any();
    assume((slot as usize) < HISTORY_ARRAY_SIZE);
    let slot = pin(slot as u64) as usize;
    let mut s = storage_bare();
    s.set_next_commitment_ptr(&ptr);
    s.set_mt_roots_count(&count);
    s.set_active_mt_root_history(slot, &v);
    noabort(true);
    s.reset();
    prop!(s.get_next_commitment_ptr() == 0 && s.get_mt_roots_count() == 0, "the next tree is empty");
    prop!(s.get_active_mt_root_history(slot) == [0; 32], "the old roots are gone");
    prop!(s.is_root_valid(&r) == (r == EMPTY_TREE[20]), "the only root of an empty tree is that of the empty tree");
    reach!("reset");
}
