//! The FIFO ring queues of commitments and metadata.
use crate::env::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::processor::CommitmentHashRequest;
use elusiv::state::commitment::{CommitmentQueue, CommitmentQueueAccount, COMMITMENT_QUEUE_LEN};
use elusiv::state::metadata::{MetadataQueue, MetadataQueueAccount};
use elusiv::state::queue::{Queue, RingQueue};
use elusiv_types::accounts::{ProgramAccount, SizedAccount};

fn req(x: u64) -> CommitmentHashRequest {
    let mut commitment = [0u8; 32];
    commitment[..8].copy_from_slice(&x.to_le_bytes());
    CommitmentHashRequest { commitment, fee_version: x as u32, min_batching_rate: 0 }
}

/// From an arbitrary position of the two pointers: enqueue and dequeue are FIFO and bounded
#[no_mangle]
pub extern "C" fn c03_enqueue_dequeue() {
    let head: u32 = any();
    let len: u8 = any();
    let x: u64 = any();
    let first: u64 = any();
    assume((head as usize) < COMMITMENT_QUEUE_LEN);
    assume((len as usize) < COMMITMENT_QUEUE_LEN && (len < 4 || len > 236 || len == 120));
    let (head, len) = (pin(head as u64) as u32, pin(len as u64) as u8);
    let data = bytes(<CommitmentQueueAccount as SizedAccount>::SIZE);
    let mut account = CommitmentQueueAccount::new(data).unwrap();
    let mut q = CommitmentQueue::new(&mut account);
    let size = COMMITMENT_QUEUE_LEN as u32;
    let tail = (head + len as u32) % size;
    q.set_head(&head);
    q.set_tail(&tail);
    if len > 0 { q.set_data(head as usize, &req(first)); }
    prop!(q.len() == len as u32, "the length is the distance of the pointers");
    prop!(q.is_empty() == (len == 0), "empty");
    prop!(q.empty_slots() == size - 1 - len as u32, "empty slots");
    noabort(true);
    let r = q.enqueue(req(x));
    prop!(r.is_ok() == ((len as u32) < size - 1), "an element is accepted exactly if the queue is not full");
    let n = if r.is_ok() { len as u32 + 1 } else { len as u32 };
    prop!(q.len() == n, "the length counts the accepted elements");
    if r.is_ok() {
        match q.view(len as usize) { Ok(v) => { prop!(v == req(x), "the accepted element is the last one"); } Err(_) => { prop!(false, "the accepted element can be viewed"); } }
        reach!("accepted");
    }
    prop!(q.view(n as usize).is_err(), "nothing can be viewed behind the last element");
    if len > 0 {
        prop!(q.view_first() == Ok(req(first)), "the first element is unchanged");
        prop!(q.dequeue_first() == Ok(req(first)), "elements leave in the order they came");
        prop!(q.len() == n - 1, "a dequeued element has left");
    } else {
        prop!(q.dequeue_first() == Ok(req(x)), "elements leave in the order they came");
        prop!(q.dequeue_first().is_err(), "an empty queue hands out nothing");
    }
}

/// Histories of 6 operations (enqueue, dequeue, remove 2) against a reference, across the wrap-around
#[no_mangle]
pub extern "C" fn c03_history() {
    let start: u32 = any();
    let ops: [u8; 6] = any();
    let vals: [u32; 6] = any();
    let probe: u32 = any();
    assume(start >= COMMITMENT_QUEUE_LEN as u32 - 3 && start < COMMITMENT_QUEUE_LEN as u32);
    let data = bytes(<CommitmentQueueAccount as SizedAccount>::SIZE);
    let start = pin(start as u64) as u32;
    let mut account = CommitmentQueueAccount::new(data).unwrap();
    let mut q = CommitmentQueue::new(&mut account);
    q.set_head(&start);
    q.set_tail(&start);
    let mut r: Vec<u32> = vec![];
    noabort(true);
    for i in 0..6 {
        match ops[i] % 3 {
            0 => { prop!(q.enqueue(req(vals[i] as u64)).is_ok(), "room for the element"); r.push(vals[i]); }
            1 => {
                let e = q.dequeue_first();
                if r.is_empty() { prop!(e.is_err(), "an empty queue hands out nothing"); } else { let x = r.remove(0); prop!(e == Ok(req(x as u64)), "elements leave in the order they came"); }
            }
            _ => {
                let e = q.remove(2);
                prop!(e.is_ok() == (r.len() >= 2), "exactly the present elements can be removed");
                if r.len() >= 2 { r.remove(0); r.remove(0); }
            }
        }
        prop!(q.len() as usize == r.len(), "the length counts the elements");
    }
    let mut inside = false;
    for i in 0..r.len() { prop!(q.view(i) == Ok(req(r[i] as u64)), "the queue holds the elements in order"); inside |= r[i] == probe; }
    prop!(q.contains(&req(probe as u64)) == inside, "contains is membership");
    if r.len() == 3 { reach!("three elements"); }
}

/// The metadata queue is the same kind of queue
#[no_mangle]
pub extern "C" fn c03_metadata() {
    let head: u32 = any();
    let len: u8 = any();
    let x: [u8; 17] = any();
    assume((head as usize) < COMMITMENT_QUEUE_LEN && (len as usize) < COMMITMENT_QUEUE_LEN && (len < 4 || len > 236 || len == 120));
    let (head, len) = (pin(head as u64) as u32, pin(len as u64) as u8);
    let data = bytes(<MetadataQueueAccount as SizedAccount>::SIZE);
    let mut account = MetadataQueueAccount::new(data).unwrap();
    let mut q = MetadataQueue::new(&mut account);
    let size = COMMITMENT_QUEUE_LEN as u32;
    q.set_head(&head);
    q.set_tail(&((head + len as u32) % size));
    noabort(true);
    let r = q.enqueue(x);
    prop!(r.is_ok() == ((len as u32) < size - 1), "an element is accepted exactly if the queue is not full");
    if r.is_ok() {
        prop!(q.len() == len as u32 + 1, "the length counts the accepted elements");
        prop!(q.view(len as usize) == Ok(x), "the accepted element is the last one");
        if len == 0 { prop!(q.dequeue_first() == Ok(x), "elements leave in the order they came"); }
        reach!("accepted");
    }
}
