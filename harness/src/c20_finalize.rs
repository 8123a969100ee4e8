//! The steps of a finalization: one transaction that spends the nullifiers before it pays out.
use crate::env::*;
use crate::proofs::*;
use crate::sym::*;
use crate::tree::*;
use crate::{prop, reach};
use elusiv::buffer::RingBuffer;
use elusiv::bytes::ElusivOption;
use elusiv::instruction::ElusivInstruction;
use elusiv::processor::*;
use elusiv::state::commitment::*;
use elusiv::state::nullifier::*;
use elusiv::state::proof::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::types::*;
use elusiv_types::accounts::{ParentAccount, ProgramAccount, SizedAccount};
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;

const SEND: u8 = ElusivInstruction::FINALIZE_VERIFICATION_SEND_INDEX;
const INSERT: u8 = ElusivInstruction::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX;
const LAMPORTS: u8 = ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX;
const TOKEN: u8 = ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_TOKEN_INDEX;
const LEAVES: u64 = 1 << 20;
const STATES: [VerificationState; 6] = [VerificationState::None, VerificationState::FeeTransferred, VerificationState::ProofSetup, VerificationState::InsertNullifiers, VerificationState::Finalized, VerificationState::Closed];

fn ix(tag: u8, index: u8) -> Instruction { Instruction { program_id: elusiv::id(), accounts: vec![], data: vec![tag, index, 0, 0] } }
fn request(token: u16, amount: u64, fee: u64) -> SendPublicInputs {
    let mut j = join_split(1, token);
    j.amount = amount;
    j.fee = fee;
    let mut p = send(j);
    p.hashed_inputs = generate_hashed_inputs(&key(2).to_bytes(), &key(3).to_bytes(), &[4; 32], &[5; 32], &[0; 32], false, &p.join_split.metadata, &p.join_split.optional_fee, &None);
    p
}
fn account(p: &SendPublicInputs, state: &VerificationState, verified: &ElusivOption<bool>) -> Info {
    let r = ProofRequest::Send(p.clone());
    verification(|v| { v.set_request(&r); v.set_state(state); v.set_is_verified(verified); v.set_other_data(&other_data(key(1), key(1), key(77), p.join_split.token_id)); })
}
struct Finalization { storage: Storage, queue: CommitmentQueueAccount<'static>, buffer: CommitmentBufferAccount<'static> }
impl Finalization {
    fn new() -> Self { Finalization { storage: storage_bare(), queue: CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap(), buffer: CommitmentBufferAccount::new(bytes(<CommitmentBufferAccount as SizedAccount>::SIZE)).unwrap() } }
    fn run(&mut self, v: Info, ixs: Info, index: u8, d: FinalizeSendData) -> Result<(), ProgramError> {
        let (recipient, identifier) = (acc(key(2)).empty(), acc(key(3)).empty());
        view(v, |v| finalize_verification_send(recipient, identifier, ixs, &mut self.queue, v, &self.storage, &mut self.buffer, ixs, index, d.clone(), false))
    }
}

/// State, verification result and the data the client repeats
#[no_mangle]
pub extern "C" fn c20_data() {
    let amount: u64 = any();
    let fee: u64 = any();
    let total: u64 = any();
    let token: u8 = any();
    let d_token: u16 = any();
    let mt_index: u32 = any();
    let commitment_index: u32 = any();
    let trees: u32 = any();
    let next: u32 = any();
    let queued: u8 = any();
    let state: u8 = any();
    let verified: u8 = any();
    let buffered: u8 = any();
    init();
    // (C18: the sum of a verification's amount and fee is a u64)
    assume(token < 3 && queued < 3 && state < 6 && verified < 3 && buffered < 3 && trees < 1 << 20 && next as u64 <= LEAVES && amount as u128 + (fee as u128) < 1 << 64);
    let token = pin(token as u64) as u16;
    let queued = pin(queued as u64);
    let state = pin(state as u64);
    let verified = pin(verified as u64);
    let buffered = pin(buffered as u64);
    let p = request(token, amount, fee);
    let v = account(&p, &STATES[state as usize], &match verified { 0 => ElusivOption::None, 1 => ElusivOption::Some(false), _ => ElusivOption::Some(true) });
    let mut f = Finalization::new();
    f.storage.set_trees_count(&trees);
    f.storage.set_next_commitment_ptr(&next);
    { let mut q = CommitmentQueue::new(&mut f.queue); for i in 0..queued { q.enqueue(CommitmentHashRequest { commitment: el(100 + i as u8).reduce(), fee_version: 0, min_batching_rate: 0 }).unwrap(); } }
    let out = p.join_split.output_commitment.reduce();
    if buffered == 1 { f.buffer.try_insert(&out).ok().unwrap(); }
    f.buffer.try_insert(&el(9).reduce()).ok().unwrap();
    if buffered == 2 { f.buffer.try_insert(&out).ok().unwrap(); }
    let ixs = instructions_account(&[ix(SEND, 7), ix(INSERT, 7), ix(if token == 0 { LAMPORTS } else { TOKEN }, 7)], 0);
    let r = f.run(v, ixs, 7, FinalizeSendData { total_amount: total, token_id: d_token, mt_index, commitment_index, iv: [4; 32], encrypted_owner: [5; 32] });
    // the place the output commitment will get at the earliest
    let place = next as u64 + queued;
    let (at, tree) = (place % LEAVES, trees as u64 + place / LEAVES);
    let matches = total as u128 == amount as u128 + fee as u128 && d_token == token && commitment_index as u64 <= at && mt_index as u64 == tree;
    let ok = state == 2 && (verified == 1 || (verified == 2 && matches));
    prop!(r.is_err() || state == 2, "only a verification whose proof is set can be finalized");
    prop!(r.is_err() || verified != 0, "only a completed verification can be finalized");
    prop!(r.is_err() || verified != 2 || matches, "the amount, token and place published are the true ones");
    prop!(r.is_ok() || !ok, "a completed verification can be finalized");
    if r.is_ok() {
        let s = view(v, |v| v.get_state());
        prop!((s == VerificationState::InsertNullifiers) == (verified == 2), "after a valid proof the nullifiers have to be inserted");
        prop!((s == VerificationState::Finalized) == (verified == 1), "an invalid proof inserts none");
        prop!(view(v, |v| v.get_other_data().recipient_wallet.option().unwrap().skip_mr()) == key(2).to_bytes(), "the recipient is the one of the proof");
        prop!(f.buffer.contains(&out) == (buffered > 0 && verified == 2), "the commitment of an invalid proof may be stored again, no other one");
        prop!(f.buffer.contains(&el(9).reduce()), "other commitments stay recorded");
        if verified == 1 { reach!("invalid proof"); } else if place >= LEAVES { reach!("next tree"); } else { reach!("this tree"); }
    }
}

/// The instructions that have to follow in the same transaction
#[no_mangle]
pub extern "C" fn c20_instructions() {
    let token = any_bool();
    let own: u8 = any();
    let index: u8 = any();
    let before = any_bool();
    let n: u8 = any();
    let kind: [u8; 4] = any();
    let idx: [u8; 4] = any();
    init();
    assume(n < 5);
    let n = pin(n as u64) as usize;
    let token = pin(token as u64) == 1;
    let before = pin(before as u64) as usize;
    let mut list = vec![];
    // (something before it in the transaction)
    for _ in 0..before { list.push(ix(if token { TOKEN } else { LAMPORTS }, index)); }
    list.push(ix(SEND, own));
    let mut tags = [0u8; 4];
    for i in 0..n {
        assume(kind[i] < 6);
        // a transaction that ends differently after a foreign instruction is no new case
        tags[i] = match pin(kind[i] as u64) { 0 => SEND, 1 => INSERT, 2 => LAMPORTS, 3 => TOKEN, 4 => 255, _ => 254 };
        let mut x = ix(tags[i], idx[i]);
        if tags[i] == 254 { x = ix(INSERT, idx[i]); x.program_id = key(66); }
        list.push(x);
    }
    let p = request(token as u16, 1 << 40, 0);
    let v = account(&p, &VerificationState::ProofSetup, &ElusivOption::Some(true));
    let mut f = Finalization::new();
    let r = f.run(v, instructions_account(&list, before as u16), index, FinalizeSendData { total_amount: 1 << 40, token_id: token as u16, mt_index: 0, commitment_index: 0, iv: [4; 32], encrypted_owner: [5; 32] });
    let mut k = 0;
    while k < n && tags[k] == INSERT && idx[k] == index { k += 1; }
    let ok = own == index && k < n && tags[k] == (if token { TOKEN } else { LAMPORTS }) && idx[k] == index;
    prop!(r.is_err() || ok, "the same transaction inserts nullifiers and pays out, with nothing in between");
    prop!(r.is_ok() || !ok, "a transaction with these instructions is accepted");
    if ok { if k == 0 { reach!("directly paid out"); } else if k == 3 { reach!("three insertions"); } }
}

fn nullifiers() -> NullifierAccount<'static, 'static, 'static> {
    let mut c = vec![None; NullifierAccount::COUNT];
    c[0] = Some(acc(key(200)).data(bytes(<NullifierChildAccount as SizedAccount>::SIZE)) as &_);
    NullifierAccount::new_with_child_accounts(bytes(<NullifierAccount as SizedAccount>::SIZE), c).unwrap()
}
/// The nullifiers are inserted one by one; only then can the verification pay out
#[no_mangle]
pub extern "C" fn c20_insert() {
    let n: u8 = any();
    let spent: u8 = any();
    let second: u8 = any();
    let state: u8 = any();
    let order: [u8; 4] = any();
    init();
    assume(n > 0 && n < 5 && spent < 6 && second < 5 && state < 6);
    let n = pin(n as u64) as usize;
    let spent = pin(spent as u64) as usize;
    let second = pin(second as u64) as usize;
    let state = pin(state as u64) as usize;
    // nullifier-hashes in any order of size
    let mut j = join_split(n, 0);
    let mut hs = [0u8; 4];
    for i in 0..n {
        assume(order[i] < 4);
        hs[i] = 20 + 3 * pin(order[i] as u64) as u8;
        for k in 0..i { assume(hs[k] != hs[i]); }
        j.input_commitments[i].nullifier_hash = el(hs[i]);
    }
    // an input of the second tree
    if second > 0 && second < n { j.input_commitments[second].root = Some(el(78)); }
    let v = account(&send(j), &STATES[state], &ElusivOption::Some(true));
    let mut a = nullifiers();
    a.try_insert_nullifier_hash(el(19).reduce()).unwrap();
    // a nullifier-hash that somebody else has spent meanwhile
    if spent < n { a.try_insert_nullifier_hash(el(hs[spent]).reduce()).unwrap(); }
    let mut ok = true;
    let mut done = 0;
    for i in 0..n {
        let r = view(v, |v| finalize_verification_insert_nullifier(v, &mut a, 0));
        let good = state == 3 && i != spent && !(second > 0 && i >= second);
        prop!(r.is_ok() == good, "a nullifier that is unspent in its tree is inserted, any other refused");
        if !good { ok = false; break; }
        done += 1;
        for k in 0..n { prop!(a.can_insert_nullifier_hash(el(hs[k]).reduce()) == Ok(k > i && k != spent), "each call spends the next nullifier and no other"); }
        prop!(view(v, |v| v.get_state() == VerificationState::Finalized) == (i + 1 == n), "it can pay out exactly when all nullifiers are spent");
    }
    if ok {
        prop!(a.get_nullifier_hash_count() == n as u32 + 1 , "each is spent once");
        prop!(view(v, |v| finalize_verification_insert_nullifier(v, &mut a, 0)).is_err(), "and never again");
        if done == 4 { reach!("four nullifiers"); }
    } else {
        let s = view(v, |v| v.get_state());
        prop!(s == STATES[state], "nothing can be paid out otherwise");
        if spent == 1 { reach!("spent meanwhile"); }
    }
}
