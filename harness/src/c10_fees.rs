//! Fee versions, and what the pool pays for the hashing of commitments.
use crate::env::*;
use crate::proofs::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::commitment::*;
use elusiv::processor::*;
use elusiv::state::commitment::*;
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::token::Lamports;
use elusiv_types::accounts::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv_types::UnverifiedAccountInfo;

fn fees(lim: u64) -> ProgramFee {
    let x: [u64; 7] = any();
    for i in 0..7 { if i != 1 && i != 2 { assume(x[i] < lim); } }
    ProgramFee { lamports_per_tx: Lamports(x[0]), base_commitment_network_fee: BasisPointFee(x[1]), proof_network_fee: BasisPointFee(x[2]), base_commitment_subvention: Lamports(x[3]),
        proof_subvention: Lamports(x[4]), warden_hash_tx_reward: Lamports(x[5]), warden_proof_reward: Lamports(x[6]), proof_base_tx_count: ProgramFee::proof_base_tx_count() }
}
fn fee_account(f: &ProgramFee) -> FeeAccount<'static> { let mut a = FeeAccount::new(bytes(<FeeAccount as SizedAccount>::SIZE)).unwrap(); a.set_program_fee(f); a }
/// Number of hash instructions of a batch
fn count(rate: u32) -> u64 { commitment_hash_computation_instructions(rate).len() as u64 }

/// Which fees are accepted
#[no_mangle]
pub extern "C" fn c10_validity() {
    let mut fee = fees(1 << 40);
    let base: u64 = any();
    let rate: u8 = any();
    assume(rate < 5);
    let own = ProgramFee::proof_base_tx_count();
    let other = pin(any_bool() as u64) == 1;
    if other { assume(base != own && base < 1 << 20); fee.proof_base_tx_count = base; }
    let valid = fee.is_valid();
    let comp = fee.lamports_per_tx.0 as u128 + fee.warden_hash_tx_reward.0 as u128;
    let mut ok = !other;
    for r in 0..5u32 {
        let chf = (count(r) as u128 * comp + (1 << r) - 1) >> r;
        if fee.base_commitment_subvention.0 as u128 > chf || fee.proof_subvention.0 as u128 > chf + own as u128 * fee.lamports_per_tx.0 as u128 { ok = false; }
    }
    prop!(!valid || ok, "no subvention is larger than the fee it is for, at any batching rate");
    prop!(valid || !ok, "fees that respect this are accepted");
    if valid {
        // ... so that the fees of every request can be computed
        let rate = pin(rate as u64) as u32;
        let b = fee.base_commitment_hash_computation_fee() + fee.commitment_hash_computation_fee(rate);
        prop!(b.is_ok() && b.unwrap().0 >= fee.base_commitment_subvention.0, "storing is possible at every batching rate");
        let c = fee.commitment_hash_computation_fee(rate) + fee.proof_verification_computation_fee(0);
        prop!(c.is_ok() && c.unwrap().0 >= fee.proof_subvention.0, "a verification is possible at every batching rate");
        reach!("valid");
    } else { reach!("invalid"); }
}

/// A new fee version
#[no_mangle]
pub extern "C" fn c10_version() {
    let fee = fees(1 << 40);
    let version: u8 = any();
    let current: u8 = any();
    let which: u8 = any();
    init();
    assume(version < 3 && current < 3 && which < 3);
    let version = pin(version as u64) as u32;
    let current = pin(current as u64) as u32;
    let which = pin(which as u64);
    let mut g = GovernorAccount::new(bytes(<GovernorAccount as SizedAccount>::SIZE)).unwrap();
    g.set_fee_version(&current);
    let before = program_fee_zero();
    g.set_program_fee(&before);
    let payer = wallet(key(1), 1 << 40).signer(true).empty();
    let (k, _) = FeeAccount::find(Some(if which == 1 { version + 1 } else { version }));
    let n = <FeeAccount as SizedAccount>::SIZE;
    let a = if which == 2 { acc(k).lamports(rent(n)).data(bytes(n)) } else { wallet(k, 0).empty() };
    let r = init_new_fee_version(payer, &mut g, UnverifiedAccountInfo::new(a), version, fee.clone());
    let ok = which == 0 && version == current && fee.is_valid();
    prop!(r.is_err() || ok, "fees are only set for the current version, once, if they are valid");
    prop!(r.is_ok() || !ok, "valid fees of the current version are accepted");
    if r.is_ok() {
        prop!(g.get_program_fee() == fee, "new requests use these fees");
        let mut b = a.data.borrow_mut();
        prop!(FeeAccount::new(&mut b).unwrap().get_program_fee() == fee, "and the fees are recorded for this version");
        prop!(*a.owner == elusiv::id() && a.lamports() == rent(n), "in an account of the program");
        reach!("new version");
    }
}
fn program_fee_zero() -> ProgramFee { crate::c13_store::program_fee(1, 0, 0, 0) }

/// Hashing a batch: one payment per instruction, no more than what its commitments paid in
fn batch(rate: u32, steps: Option<u64>) -> bool {
    let per_tx: u64 = any();
    let reward: u64 = any();
    let p0: u64 = any();
    let f0: u64 = any();
    let version: u32 = any();
    init();
    assume(per_tx < 1 << 40 && reward < 1 << 40 && p0 < 1 << 60 && f0 < 1 << 60);
    let fee = crate::c13_store::program_fee(per_tx, 0, 0, reward);
    let fa = fee_account(&fee);
    let mut h = CommitmentHashingAccount::new(bytes(<CommitmentHashingAccount as SizedAccount>::SIZE)).unwrap();
    let sib = [[1u8; 32]; 20];
    let com = vec![[2u8; 32]; 1 << rate];
    let pool = pda::<PoolAccount>(p0);
    let payer = wallet(key(1), f0).signer(true).empty();
    prop!(compute_commitment_hash(payer, &fa, pool, &mut h, 7, 0).is_err() && payer.lamports() == f0, "nothing is paid without a batch");
    h.setup(0, &sib).unwrap();
    prop!(compute_commitment_hash(payer, &fa, pool, &mut h, 7, 0).is_err() && payer.lamports() == f0, "nor before it is placed");
    h.reset(rate, 7, &com).unwrap();
    let n = steps.unwrap_or(u64::MAX);
    let comp = per_tx + reward;
    let mut k = 0u64;
    loop {
        if k == n { break; }
        // (the instructions of a transaction that fails have no effect)
        let i = h.get_instruction();
        let r = compute_commitment_hash(payer, &fa, pool, &mut h, version, 0);
        if r.is_err() {
            if h.get_instruction() == i { prop!(version != 7 || k == count(rate), "every instruction of the hashing is paid for"); }
            else { prop!((p0 as u128) < (k as u128 + 1) * comp as u128 + rent(pool.data_len()) as u128, "as long as the pool can pay"); }
            return false;
        }
        k += 1;
        prop!(version == 7, "in the fee version of the batch");
        prop!(k <= count(rate), "no more than the hashing takes");
        prop!(pool.lamports() as u128 + k as u128 * comp as u128 == p0 as u128 && payer.lamports() as u128 == f0 as u128 + k as u128 * comp as u128, "the pool pays the compensation to the fee payer, once per instruction");
        if k == count(rate) {
            let fees = (fee.commitment_hash_computation_fee(rate).0 as u128) << rate;
            prop!(k as u128 * comp as u128 <= fees && fees < k as u128 * comp as u128 + (1 << rate), "the fees of the batch cover this and hardly more");
            prop!(compute_commitment_hash(payer, &fa, pool, &mut h, version, 0).is_err() && payer.lamports() as u128 == f0 as u128 + k as u128 * comp as u128, "nothing is paid for a finished computation");
            return true;
        }
    }
    false
}
#[no_mangle]
pub extern "C" fn c10_batch() {
    let rate: u8 = any();
    assume(rate < 2);
    if batch(pin(rate as u64) as u32, None) { reach!("computed"); }
}
#[no_mangle]
pub extern "C" fn c10t_batch() {
    let rate: u8 = any();
    assume(rate >= 2 && rate < 5);
    if batch(pin(rate as u64) as u32, None) { reach!("computed"); }
}

/// Finishing a base commitment hash
#[no_mangle]
pub extern "C" fn c10_base() {
    let per_tx: u64 = any();
    let reward: u64 = any();
    let p0: u64 = any();
    let f0: u64 = any();
    let version: u32 = any();
    let ix: u32 = any();
    let active = any_bool();
    let who: u8 = any();
    let value: [u8; 31] = any();
    let full: u8 = any();
    let meta: [u8; 17] = any();
    let rate: u32 = any();
    init();
    assume(per_tx < 1 << 40 && reward < 1 << 40 && p0 < 1 << 60 && f0 < 1 << 60 && who < 2 && full < 3 && rate < 5);
    let who = pin(who as u64);
    let full = pin(full as u64);
    let fee = crate::c13_store::program_fee(per_tx, 0, 0, reward);
    let fa = fee_account(&fee);
    let n = <BaseCommitmentHashingAccount as SizedAccount>::SIZE;
    let info = acc(key(40)).lamports(rent(n)).data(bytes(n));
    let mut result = [0u8; 32];
    result[..31].copy_from_slice(&value);
    {
        let mut b = info.data.borrow_mut();
        let mut h = BaseCommitmentHashingAccount::new(&mut b).unwrap();
        h.setup(BaseCommitmentHashRequest { base_commitment: el(1), recent_commitment_index: 3, amount: 4, token_id: 0, commitment: el(5), fee_version: 7, min_batching_rate: rate }, meta, key(1).to_bytes()).unwrap();
        use elusiv::fields::u256_to_fr_skip_mr as fr;
        h.set_state(&poseidon_hash::BinarySpongeHashingState([fr(&result), fr(&[0; 32]), fr(&[0; 32])]));
        h.set_instruction(&ix);
        h.set_is_active(&active);
    }
    let pool = pda::<PoolAccount>(p0);
    let payer = wallet(key(1), f0).empty();
    let other = wallet(key(2), 5).empty();
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut ma = MetadataQueueAccount::new(bytes(<MetadataQueueAccount as SizedAccount>::SIZE)).unwrap();
    let c = CommitmentHashRequest { commitment: [9; 32], fee_version: 7, min_batching_rate: 0 };
    if full == 1 { let mut q = CommitmentQueue::new(&mut qa); while q.enqueue(c.clone()).is_ok() {} }
    if full == 2 { let mut q = MetadataQueue::new(&mut ma); while q.enqueue([8; 17]).is_ok() {} }
    let all = [pool, payer, info, other];
    let before = total(&all);
    let r = finalize_base_commitment_hash(if who == 0 { payer } else { other }, pool, &fa, info, &mut qa, &mut ma, 0, version);
    let due = 2 * (per_tx + reward) as u128 + per_tx as u128;
    prop!(fee.base_commitment_hash_computation_fee().0 as u128 == due, "the fee of a base commitment is for two computations and a signature");
    if r.is_ok() {
        prop!(total(&all) == before, "no lamports appear or vanish");
        prop!(active && ix == 2 && version == 7 && who == 0 && full == 0, "only a finished computation, in its fee version, for its fee payer");
        prop!(payer.lamports() as u128 == f0 as u128 + due + rent(n) as u128 && pool.lamports() as u128 + due == p0 as u128 && info.lamports() == 0, "the fee payer gets its fee and its rent back");
        prop!(pool.lamports() >= rent(pool.data_len()), "the pool stays rent-exempt");
        let mut q = CommitmentQueue::new(&mut qa);
        let mut m = MetadataQueue::new(&mut ma);
        prop!(q.len() == 1 && m.len() == 1, "one commitment is queued");
        let x = q.view_first().unwrap();
        prop!(x.commitment == result && x.fee_version == 7 && x.min_batching_rate == rate && m.view_first() == Ok(meta), "it is the computed one, with the parameters and metadata of the request");
        let mut b = info.data.borrow_mut();
        prop!(!BaseCommitmentHashingAccount::new(&mut b).unwrap().get_is_active(), "and it cannot be finished again");
        reach!("finished");
    } else if active && ix == 2 && version == 7 && who == 0 && full == 0 {
        prop!((p0 as u128) < due + rent(pool.data_len()) as u128, "a finished computation can be finalized unless the pool cannot pay");
    }
}
