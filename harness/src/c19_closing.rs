//! Closing a full tree: nothing of it enters the next tree.
use crate::c08_hashing::*;
use crate::env::*;
use crate::sym::*;
use crate::tree::*;
use crate::{prop, reach};
use elusiv::commitment::poseidon_hash::BinarySpongeHashingState;
use elusiv::fields::u256_to_fr_skip_mr;
use elusiv::processor::*;
use elusiv::state::commitment::*;
use elusiv::state::metadata::{MetadataAccount, MetadataQueueAccount};
use elusiv::state::nullifier::NullifierAccount;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::state::storage::{EMPTY_TREE, MT_COMMITMENT_COUNT};
use elusiv_types::accounts::{ParentAccount, ProgramAccount, SizedAccount};

fn nullifiers() -> NullifierAccount<'static, 'static, 'static> { NullifierAccount::new_with_child_accounts(bytes(<NullifierAccount as SizedAccount>::SIZE), vec![None; NullifierAccount::COUNT]).unwrap() }

/// A tree is closed exactly when the next batch cannot (or can only just) be placed; then its root is kept and the next tree is empty
#[no_mangle]
pub extern "C" fn c19_close() {
    let ptr: u32 = any();
    let trees: u32 = any();
    let index: u32 = any();
    let n: u8 = any();
    let rate: u8 = any();
    let r: [u8; 32] = any();
    let q: [u8; 32] = any();
    assume(ptr as usize <= MT_COMMITMENT_COUNT && n <= 3 && rate <= 1);
    let n = pin(n as u64) as u8;
    init();
    let mut s = storage_full();
    s.set_next_commitment_ptr(&ptr);
    s.set_trees_count(&trees);
    s.set_mt_roots_count(&5);
    s.set_node(&r, 0, 0).unwrap();
    s.set_active_mt_root_history(4, &r);
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    for i in 0..3 { if i < n { CommitmentQueue::new(&mut qa).enqueue(CommitmentHashRequest { commitment: [i; 32], fee_version: 0, min_batching_rate: rate as u32 }).unwrap(); } }
    let mut nul = nullifiers();
    let ok = reset_active_merkle_tree(&mut s, &mut qa, &mut nul, index).is_ok();
    let size = 1usize << rate;
    let batch = n as usize >= size;
    let full = ptr as usize == MT_COMMITMENT_COUNT || (batch && ptr as usize + size >= MT_COMMITMENT_COUNT);
    prop!(ok == (index == trees && full && trees != u32::MAX), "exactly the active tree can be closed, and only when the next batch does not leave room in it");
    prop!(CommitmentQueue::new(&mut qa).len() == n as u32, "closing a tree leaves the queue alone");
    if ok {
        prop!(nul.get_root() == r, "the closed tree keeps its root");
        prop!(s.get_trees_count() == trees + 1, "the next tree is the active one");
        prop!(s.get_next_commitment_ptr() == 0, "the next tree is empty");
        prop!(s.get_root() == Ok(EMPTY_TREE[20]), "the next tree is empty");
        prop!(s.is_root_valid(&q) == (q == EMPTY_TREE[20]), "no root of the closed tree is valid in the next one");
        reach!("closed");
    } else {
        prop!(s.get_next_commitment_ptr() == ptr && s.get_trees_count() == trees, "a refused closing changes nothing");
    }
}

/// A tree is closed at any point of a batch's life: the batch is not lost, and no node of the closed tree becomes reachable in the next one
#[no_mangle]
pub extern "C" fn c19_close_in_flight() {
    let rate: u8 = any();
    let when: u8 = any();
    let partial: u8 = any();
    let tag: u32 = any();
    assume(rate <= 2 && when <= 4);
    let rate = pin(rate as u64) as usize;
    let when = pin(when as u64);
    let size = 1u32 << rate;
    init();
    let mut s = storage_full();
    let ptr = MT_COMMITMENT_COUNT as u32 - size;
    s.set_next_commitment_ptr(&ptr);
    // nodes of the old tree
    for level in 0..=20usize { s.set_node(&[0xee; 32], 0, level).unwrap(); }
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut ma = MetadataQueueAccount::new(bytes(<MetadataQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut meta = MetadataAccount::new_with_child_accounts(bytes(<MetadataAccount as SizedAccount>::SIZE), vec![None; MetadataAccount::COUNT]).unwrap();
    let c0 = acc(key(1)).data(bytes(<elusiv::state::metadata::MetadataChildAccount as SizedAccount>::SIZE));
    let mut ch = vec![None; MetadataAccount::COUNT];
    ch[0] = Some(c0);
    MetadataAccount::set_child_accounts(&mut meta, ch);
    let com = |i: u32| { let mut c = [0u8; 32]; c[..4].copy_from_slice(&(tag ^ i).to_le_bytes()); c[5] = 1; c };
    let mut q = CommitmentQueue::new(&mut qa);
    for i in 0..2 * size { q.enqueue(CommitmentHashRequest { commitment: com(i), fee_version: 0, min_batching_rate: rate as u32 }).unwrap(); }
    for _ in 0..2 * size { elusiv::state::metadata::MetadataQueue::new(&mut ma).enqueue([1; 17]).unwrap(); }
    let mut h = hashing();
    let mut nul = nullifiers();
    let done = elusiv::commitment::commitment_hash_computation_instructions(rate as u32).len() as u32;
    let finish = |h: &mut CommitmentHashingAccount| {
        for k in 0..hashes(rate) { let mut v = com(k as u32); v[6] = 2; h.save_finished_hash(k, &BinarySpongeHashingState([u256_to_fr_skip_mr(&v); 3])); }
        h.set_instruction(&done);
    };
    // the tree is closed: before anything, after the setup, after the batch is placed, after it is hashed, in the middle of its insertion
    if when >= 1 { init_commitment_hash_setup(&mut h, &s, false).unwrap(); }
    if when >= 2 { init_commitment_hash(&mut qa, &mut ma, &mut h, &mut meta, false).unwrap(); }
    if when >= 3 { finish(&mut h); }
    if when >= 4 { assume((partial as usize) < rate + 1); let p = pin(partial as u64); for _ in 0..p { finalize_commitment_hash(&mut h, &mut s).unwrap(); } }
    reset_active_merkle_tree(&mut s, &mut qa, &mut nul, 0).unwrap();
    let placed = when >= 2;
    // whatever is tried with the hashing account first
    let _ = finalize_commitment_hash(&mut h, &mut s);
    if when == 1 { init_commitment_hash(&mut qa, &mut ma, &mut h, &mut meta, false).unwrap(); finish(&mut h); let _ = finalize_commitment_hash(&mut h, &mut s); }
    prop!(s.get_next_commitment_ptr() == 0 && s.get_mt_roots_count() == 0, "nothing of the closed tree is reachable in the next one");
    // and then the regular way
    noabort(true);
    let a = init_commitment_hash_setup(&mut h, &s, false);
    prop!(a.is_ok(), "hashing can go on in the next tree");
    prop!(h.get_ordering() == 0, "hashing goes on at the start of the next tree");
    if !placed && when != 1 { prop!(init_commitment_hash(&mut qa, &mut ma, &mut h, &mut meta, false).is_ok(), "hashing can go on in the next tree"); }
    prop!(h.get_is_active() && h.get_instruction() == 0 && h.get_finalization_ix() == 0, "a pending batch is hashed again");
    for i in 0..20 { prop!(h.get_siblings(i) == EMPTY_TREE[i], "the siblings are those of the next tree"); }
    for i in 0..size { prop!(h.get_hash_tree(i as usize) == com(i), "the pending batch is not lost"); }
    finish(&mut h);
    for _ in 0..=rate { prop!(finalize_commitment_hash(&mut h, &mut s).is_ok(), "the batch is inserted"); }
    for i in 0..size { prop!(s.get_node(i as usize, 20) == Ok(com(i)), "the batch's commitments are the first of the next tree"); }
    prop!(s.get_next_commitment_ptr() == size && s.get_mt_roots_count() == 1, "the next tree holds the batch only");
    reach!("inserted");
}
