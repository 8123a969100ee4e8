//! Batches leave the commitment queue only into the hashing account, in order and together with their metadata.
use crate::env::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::processor::{init_commitment_hash, init_commitment_hash_setup, CommitmentHashRequest};
use elusiv::state::commitment::{CommitmentHashingAccount, CommitmentQueue, CommitmentQueueAccount, COMMITMENT_QUEUE_LEN};
use elusiv::state::metadata::{MetadataAccount, MetadataChildAccount, MetadataQueue, MetadataQueueAccount};
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::state::storage::MT_COMMITMENT_COUNT;
use elusiv_types::accounts::{ParentAccount, ProgramAccount, SizedAccount};

fn c32(x: u32) -> [u8; 32] { let mut r = [0u8; 32]; r[..4].copy_from_slice(&x.to_le_bytes()); r }
fn m17(x: u32) -> [u8; 17] { let mut r = [7u8; 17]; r[..4].copy_from_slice(&x.to_le_bytes()); r }

/// The next batch: the shortest prefix that satisfies the batching rate of each of its members
#[no_mangle]
pub extern "C" fn c04_next_batch() {
    let head: u32 = any();
    let n: u8 = any();
    let rates: [u8; 5] = any();
    let fees: [u8; 5] = any();
    let cs: [u32; 5] = any();
    assume(head < COMMITMENT_QUEUE_LEN as u32 && n <= 5 && head > COMMITMENT_QUEUE_LEN as u32 - 4);
    let (head, n) = (pin(head as u64) as u32, pin(n as u64) as u8);
    for r in rates { assume(r <= 2); }
    for f in fees { assume(f <= 1); }
    init();
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut q = CommitmentQueue::new(&mut qa);
    q.set_head(&head);
    q.set_tail(&head);
    for i in 0..5 { if i < n as usize { q.enqueue(CommitmentHashRequest { commitment: c32(cs[i]), fee_version: fees[i] as u32, min_batching_rate: rates[i] as u32 }).unwrap(); } }
    // expected
    let mut size = 0;
    let mut rate = 0;
    let mut ok = n > 0;
    for i in 0..4 {
        if i >= n as usize { ok &= size > 0 && i >= size; break; }
        if size > 0 && i >= size { break; }
        if rates[i] > rate { rate = rates[i]; }
        size = 1usize << rate;
        if fees[i] != fees[0] { ok = false; break; }
    }
    match q.next_batch() {
        Ok((b, r)) => {
            prop!(ok, "no batch without enough commitments of one fee version");
            prop!(r == rate as u32 && b.len() == size, "the batch has the size its batching rate demands");
            for (i, x) in b.iter().enumerate() { prop!(x.commitment == c32(cs[i]) && x.min_batching_rate <= r && x.fee_version == fees[0] as u32, "the batch is a prefix of the queue"); }
            if b.len() == 4 { reach!("batch of four"); }
        }
        Err(_) => { prop!(!ok, "a complete batch is handed out"); }
    }
    prop!(q.len() == n as u32, "looking at the batch does not change the queue");
}

/// Placing a batch: commitments and metadata leave their queues exactly when they arrive at their destination
#[no_mangle]
pub extern "C" fn c04_init_commitment_hash() {
    let n: u8 = any();
    let rate: u8 = any();
    let cs: [u32; 3] = any();
    let ms: [u32; 3] = any();
    let missing_metadata = any_bool();
    let ordering: u32 = any();
    let meta_ptr: u32 = any();
    let has_child = any_bool();
    let can_fail = any_bool();
    let set_up = any_bool();
    let active = any_bool();
    assume(n <= 3 && rate <= 1);
    let n = pin(n as u64) as u8;
    assume(ordering <= MT_COMMITMENT_COUNT as u32);
    assume(meta_ptr < 65536 && (meta_ptr < 2 || meta_ptr > 65533));
    let meta_ptr = pin(meta_ptr as u64) as u32;
    init();
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut ma = MetadataQueueAccount::new(bytes(<MetadataQueueAccount as SizedAccount>::SIZE)).unwrap();
    for i in 0..3 { if i < n as usize {
        CommitmentQueue::new(&mut qa).enqueue(CommitmentHashRequest { commitment: c32(cs[i]), fee_version: 3, min_batching_rate: rate as u32 }).unwrap();
        if !missing_metadata { MetadataQueue::new(&mut ma).enqueue(m17(ms[i])).unwrap(); }
    } }
    let mut h = CommitmentHashingAccount::new(bytes(<CommitmentHashingAccount as SizedAccount>::SIZE)).unwrap();
    h.set_ordering(&ordering);
    h.set_setup(&set_up);
    h.set_is_active(&active);
    let size = 1usize << rate;
    let mut children = vec![None; MetadataAccount::COUNT];
    let child = acc(key(1)).data(bytes(<MetadataChildAccount as SizedAccount>::SIZE));
    let child2 = acc(key(2)).data(bytes(<MetadataChildAccount as SizedAccount>::SIZE));
    if has_child { children[0] = Some(child); children[1] = Some(child2); }
    let mut meta = MetadataAccount::new_with_child_accounts(bytes(<MetadataAccount as SizedAccount>::SIZE), children).unwrap();
    meta.set_next_metadata_ptr(&meta_ptr);

    let r = init_commitment_hash(&mut qa, &mut ma, &mut h, &mut meta, can_fail);
    if r.is_err() { return; } // the transaction is reverted
    let mut q = CommitmentQueue::new(&mut qa);
    let left = q.len() as usize;
    let placed = n as usize - left;
    if placed == 0 {
        prop!(h.get_is_active() == active, "nothing is started without commitments");
        prop!(missing_metadata || MetadataQueue::new(&mut ma).len() == n as u32, "metadata stays with its commitments");
        prop!(meta.get_next_metadata_ptr() == meta_ptr, "metadata stays with its commitments");
        reach!("nothing placed");
    } else {
        prop!(placed == size, "a whole batch is placed");
        prop!(set_up && !active && h.get_is_active(), "a batch is placed in a free hashing account, which then is active");
        prop!(ordering as usize + size <= MT_COMMITMENT_COUNT, "a placed batch fits into the tree");
        prop!(h.get_batching_rate() == rate as u32 && h.get_fee_version() == 3, "the hashing account knows rate and fee version");
        for i in 0..size { prop!(h.get_hash_tree(i) == c32(cs[i]), "the placed commitments are those that left the queue, in order"); }
        prop!(!missing_metadata && MetadataQueue::new(&mut ma).len() as usize == n as usize - size, "metadata leaves its queue together with its commitment");
        prop!(meta.get_next_metadata_ptr() == meta_ptr + size as u32, "metadata is stored for each commitment");
        for i in 0..size {
            let p = meta_ptr as usize + i;
            let c = if p < 65536 { child } else { child2 };
            let o = 1 + 17 * (p % 65536);
            prop!(c.data.borrow()[o..o + 17] == m17(ms[i]), "metadata is stored in the order of the commitments");
        }
        for i in size..n as usize { prop!(q.view(i - size).map(|v| v.commitment) == Ok(c32(cs[i])), "the other commitments stay in the queue"); }
        if size == 2 && meta_ptr == 65535 { reach!("placed over two metadata accounts"); }
    }
}
