//! Which join-splits a verification can be initialized for.
use crate::env::*;
use crate::proofs::*;
use crate::sym::*;
use crate::tree::*;
use crate::{prop, reach};
use elusiv::processor::*;
use elusiv::buffer::RingBuffer;
use elusiv::state::commitment::*;
use elusiv::state::nullifier::*;
use elusiv::state::proof::*;
use elusiv::state::vkey::VKeyAccount;
use elusiv::types::*;
use elusiv_types::accounts::{PDAAccount, ParentAccount, ProgramAccount, SizedAccount};
use solana_program::entrypoint::ProgramResult;

type Nullifiers = NullifierAccount<'static, 'static, 'static>;
const OLD_ROOT: u8 = 90;
const ROOT: u8 = 77;
const SPENT: u8 = 10;

/// The nullifier account of a closed tree in which SPENT has been spent
fn nullifiers(root: u8) -> Nullifiers {
    let mut c = vec![None; NullifierAccount::COUNT];
    c[0] = Some(acc(key(200)).data(bytes(<NullifierChildAccount as SizedAccount>::SIZE)) as &_);
    let mut n = NullifierAccount::new_with_child_accounts(bytes(<NullifierAccount as SizedAccount>::SIZE), c).unwrap();
    n.try_insert_nullifier_hash(el(SPENT).reduce()).unwrap();
    n.set_root(&el(root).reduce());
    n
}
/// Everything an initialization is given
pub struct Init { pub fp: Info, pub v: Info, pub dup: Info, pub storage: Storage, pub buffer: CommitmentBufferAccount<'static>, pub n: [Nullifiers; 2], pub vkey: VKeyAccount<'static, 'static, 'static> }
pub fn init_accounts(j: &JoinSplitPublicInputs, next: u32) -> Init {
    let mut storage = storage_bare();
    storage.set_trees_count(&1);
    storage.set_next_commitment_ptr(&next);
    storage.set_mt_roots_count(&1);
    storage.set_active_mt_root_history(0, &el(ROOT).reduce());
    let mut vkey = VKeyAccount::new_with_child_accounts(bytes(<VKeyAccount as SizedAccount>::SIZE), vec![None; VKeyAccount::COUNT]).unwrap();
    vkey.set_version(&1);
    vkey.set_public_inputs_count(&14);
    let fp = wallet(key(1), 1 << 40).signer(true).empty();
    let (vk, _) = VerificationAccount::find_with_pubkey(*fp.key, Some(0));
    let (dk, _) = j.nullifier_duplicate_pda();
    Init { fp, v: wallet(vk, 0).empty(), dup: wallet(dk, 0).empty(), storage, buffer: CommitmentBufferAccount::new(bytes(<CommitmentBufferAccount as SizedAccount>::SIZE)).unwrap(),
        n: [nullifiers(ROOT), nullifiers(OLD_ROOT)], vkey }
}
impl Init {
    pub fn run(&mut self, index: u8, vkey_id: u32, trees: [u32; 2], request: ProofRequest, skip: bool) -> ProgramResult {
        init_verification(self.fp, self.v, &self.vkey, self.dup, self.fp, &self.storage, &mut self.buffer, &self.n[0], &self.n[1], index, vkey_id, trees, request, skip)
    }
}

/// Up to three inputs: each root belongs to the tree it is claimed for, each nullifier is unspent there and used once
fn inputs(n: usize) -> (JoinSplitPublicInputs, [u32; 2], bool, ProgramResult) {
    let roots: [u8; 3] = any();
    let nulls: [u8; 3] = any();
    let trees: [u8; 2] = any();
    init();
    let mut j = join_split(n, 0);
    let tree = [pin((trees[0] & 1) as u64) as u32, pin((trees[1] & 1) as u64) as u32];
    let mut root = [0u8; 3];
    let mut null = [0u8; 3];
    for i in 0..n {
        assume(roots[i] < 4 && nulls[i] < 3);
        root[i] = pin(roots[i] as u64) as u8;
        null[i] = pin(nulls[i] as u64) as u8;
        j.input_commitments[i] = InputCommitment { root: match root[i] { 0 => None, 1 => Some(el(ROOT)), 2 => Some(el(OLD_ROOT)), _ => Some(el(33)) }, nullifier_hash: el(SPENT + null[i]) };
    }
    // tree 1 is the active one; the account of tree 0 is the one with the old root
    let mut a = init_accounts(&j, 0);
    if tree[0] == 0 { a.n.swap(0, 1); }
    if tree[1] == 1 && tree[0] == 0 { } else if tree[1] == tree[0] { a.n[1] = nullifiers(if tree[1] == 1 { ROOT } else { OLD_ROOT }); }
    let r = a.run(0, 0, tree, ProofRequest::Send(send(j.clone())), false);
    // what may be accepted
    let mut ok = root[0] != 0;
    let mut t = [0usize; 3];
    let mut k = 0;
    for i in 0..n {
        if root[i] != 0 {
            if k == 2 { ok = false; break; }
            t[i] = k;
            k += 1;
            let valid = if tree[t[i]] == 1 { root[i] == 1 } else { root[i] == 2 };
            if !valid { ok = false; }
        }
        if null[i] == 0 { ok = false; }
        for l in 0..i { if null[l] == null[i] && t[l] == t[i] { ok = false; } }
    }
    if k == 2 && tree[0] == tree[1] { ok = false; }
    (j, tree, ok, r)
}
#[no_mangle]
pub extern "C" fn c18_inputs() {
    let n: u8 = any();
    assume(n < 2);
    let n = 1 + pin(n as u64) as usize;
    let (_, _, ok, r) = inputs(n);
    prop!(r.is_err() || ok, "every root is one of its tree and every nullifier is unspent and used once");
    prop!(r.is_ok() || !ok, "a join-split of valid inputs is accepted");
    if n == 2 && ok { reach!("two inputs"); }
}
#[no_mangle]
pub extern "C" fn c18t_inputs() {
    let (_, _, ok, r) = inputs(3);
    prop!(r.is_err() || ok, "every root is one of its tree and every nullifier is unspent and used once");
    prop!(r.is_ok() || !ok, "a join-split of valid inputs is accepted");
    if ok { reach!("three inputs"); }
}

/// Amounts and counters
#[no_mangle]
pub extern "C" fn c18_amounts() {
    let amount: u64 = any();
    let fee: u64 = any();
    let optional: u64 = any();
    let rci: u32 = any();
    let next: u32 = any();
    init();
    let mut j = join_split(1, 0);
    j.input_commitments[0].nullifier_hash = el(11);
    j.amount = amount;
    j.fee = fee;
    j.optional_fee.amount = optional;
    j.recent_commitment_index = rci;
    assume(next <= 1 << 20);
    let mut a = init_accounts(&j, next);
    let r = a.run(0, 0, [1, 0], ProofRequest::Send(send(j.clone())), false);
    let window = rci <= next && next - rci < 128;
    let sum = amount as u128 + fee as u128 <= u64::MAX as u128;
    if r.is_ok() {
        prop!(sum, "amount and fee add up: a proof never covers less than it pays out");
        prop!(optional <= amount, "the optional fee is part of the amount");
        prop!(window, "the recent commitment index is recent");
        let sized = view(a.v, |v| {
            // the public inputs of the proof are those of the request
            let p = |i: usize| v.get_public_input(i).skip_mr();
            let u = |x: u64| { let mut b = [0u8; 32]; b[..8].copy_from_slice(&x.to_le_bytes()); b };
            prop!(p(0) == el(11).skip_mr() && p(1) == [0; 32] && p(2) == [0; 32] && p(3) == [0; 32], "nullifiers");
            prop!(p(4) == el(ROOT).skip_mr() && p(5) == [0; 32] && p(6) == [0; 32] && p(7) == [0; 32], "roots");
            prop!(p(8) == u(amount + fee), "amount");
            prop!(p(9) == el(55).skip_mr() && p(10) == u(rci as u64) && p(11) == u(0) && p(12) == u(0) && p(13) == [0; 32], "commitment and the rest");
            prop!(v.get_state() == VerificationState::None && v.get_is_verified() == elusiv::bytes::ElusivOption::None && v.get_tree_indices(0) == 1, "a fresh verification");
            prop!(v.get_other_data().fee_payer.skip_mr() == a.fp.key.to_bytes(), "of its fee payer");
            v.get_vkey_id()
        });
        prop!(sized == 0, "with the key of the request");
        reach!("accepted");
    } else { prop!(!(sum && optional <= amount && window), "valid amounts are accepted"); }
}

/// Accounts, shape of the request and double use
#[no_mangle]
pub extern "C" fn c18_accounts() {
    let case: u8 = any();
    let skip = any_bool();
    let index: u8 = any();
    init();
    assume(case < 12 && (index < 2 || index == 129 || index == 255));
    let case = pin(case as u64);
    let index = pin(index as u64) as u8;
    assume(case == 0 || index == 0);
    let skip = pin(skip as u64) == 1;
    let mut j = join_split(if case == 1 { 5 } else if case == 2 { 0 } else { 1 }, 0);
    for (i, c) in j.input_commitments.iter_mut().enumerate() { c.nullifier_hash = el(11 + i as u8); }
    if case == 3 { j.output_commitment = RawU256::new(ZERO_COMMITMENT_RAW); }
    let mut a = init_accounts(&j, 0);
    let id = if case == 4 { 1 } else { 0 };
    if case == 5 { a.vkey.set_version(&0); }
    if case == 6 { a.dup = wallet(key(60), 0).empty(); }
    if case == 7 { a.v = wallet(key(61), 0).empty(); }
    if case == 8 { let _ = a.buffer.try_insert(&j.output_commitment.reduce()); }
    // an open reservation of these nullifiers
    if case == 9 { a.dup = duplicate(&j); }
    // someone else's verification account
    if case == 10 { a.v = wallet(VerificationAccount::find_with_pubkey(key(2), Some(0)).0, 0).empty(); }
    let request = if case == 11 { ProofRequest::Migrate(MigratePublicInputs { join_split: j.clone(), current_nsmt_root: el(1), next_nsmt_root: el(2) }) } else { ProofRequest::Send(send(j.clone())) };
    let r = a.run(index, id, [1, 0], request, skip);
    if r.is_ok() {
        prop!(index == 0, "the account belongs to the index");
        prop!(case == 0 || case == 9, "only a well-formed request with its own accounts and an unused commitment is accepted");
        prop!(skip == (case == 9), "the nullifiers are reserved once");
        prop!(a.dup.lamports() > 0 && *a.dup.owner == elusiv::id(), "the nullifiers are reserved");
        prop!(a.buffer.find_position(&j.output_commitment.reduce()).is_some(), "the output commitment is remembered");
        if case == 0 { reach!("opened"); } else { reach!("second"); }
    } else { prop!(!(index == 0 && (case == 0 && !skip || case == 9 && skip)), "a proper request is accepted"); }
}
