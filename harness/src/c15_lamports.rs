//! Finalizing a SOL transfer: everyone gets exactly what is due to them.
use crate::env::*;
use crate::proofs::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::bytes::ElusivOption;
use elusiv::processor::*;
use elusiv::state::commitment::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::proof::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::token::Lamports;
use elusiv_types::accounts::{ProgramAccount, SizedAccount};
use solana_program::system_instruction;

/// A valid proof, distinct parties
#[no_mangle]
pub extern "C" fn c15_valid() {
    let amount: u64 = any();
    let optional: u64 = any();
    let chf: u64 = any();
    let chf_token: u64 = any();
    let pvf: u64 = any();
    let net: u64 = any();
    let sub: u64 = any();
    let p0: u64 = any();
    let r0: u64 = any();
    let f0: u64 = any();
    let who: u8 = any();
    let state: u8 = any();
    let skip = any_bool();
    let token: u16 = any();
    init();
    assume(r0 < 1 << 60 && f0 < 1 << 60 && p0 < 1 << 60);
    assume(who < 6 && state < 6 && token <= 2);
    let who = pin(who as u64);
    let state = pin(state as u64);
    let mut j = join_split(1, token);
    j.amount = amount;
    j.optional_fee.amount = optional;
    let request = ProofRequest::Send(send(j.clone()));
    let states = [VerificationState::None, VerificationState::FeeTransferred, VerificationState::ProofSetup, VerificationState::InsertNullifiers, VerificationState::Finalized, VerificationState::Closed];
    let v = verification(|v| {
        v.set_request(&request);
        v.set_state(&states[state as usize]);
        v.set_is_verified(&ElusivOption::Some(true));
        let mut d = other_data(key(1), key(1), key(2), 0);
        d.network_fee = net; d.commitment_hash_fee = Lamports(chf); d.commitment_hash_fee_token = chf_token; d.proof_verification_fee = pvf; d.subvention = sub; d.skip_nullifier_pda = skip; d.min_batching_rate = 2;
        v.set_other_data(&d);
    });
    let dup = duplicate(&j);
    let other_dup = duplicate(&join_split(2, 0));
    let fp = wallet(key(1), f0).empty();
    let rcp = wallet(key(2), r0).empty();
    let opt = wallet(key(9), 5).empty();
    let other = wallet(key(50), 7).empty();
    let pool = pda::<PoolAccount>(p0);
    let col = pda::<FeeCollectorAccount>(3_000_000);
    let ixs = instructions_account(&[], 0);
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut ma = MetadataQueueAccount::new(bytes(<MetadataQueueAccount as SizedAccount>::SIZE)).unwrap();
    let all = [fp, rcp, opt, other, pool, col, v, dup, other_dup];
    let before = total(&all);
    let (v0, d0, c0, o0) = (v.lamports(), dup.lamports(), col.lamports(), opt.lamports());
    // who: one account is not the one it should be, or (5) the recipient is the fee payer
    let a_fp = if who == 1 { other } else { fp };
    let a_rcp = if who == 2 { other } else { rcp };
    let a_opt = if who == 3 { other } else { opt };
    let a_dup = if who == 4 { other_dup } else { dup };
    let r = finalize_verification_transfer_lamports(a_fp, a_rcp, pool, col, a_opt, &mut qa, &mut ma, v, a_dup, ixs, 0);
    prop!(total(&all) == before || r.is_err(), "no lamports appear or vanish");
    if r.is_ok() {
        prop!(state == 4, "only a verification whose nullifiers are inserted can pay out");
        prop!(token == 0, "SOL is paid out for SOL only");
        prop!(who != 1 && who != 4 && (who != 2 || amount == 0) && (who != 3 || optional == 0 || amount == 0), "nobody else can be paid");
        let rent_back = v0 + if skip { 0 } else { d0 };
        let sent = if amount == 0 { 0 } else { amount - optional };
        let o = if amount == 0 { 0 } else { optional };
        prop!(amount == 0 || optional <= amount, "the optional fee is part of the amount");
        prop!(rcp.lamports() as u128 == r0 as u128 + sent as u128, "the recipient gets the amount less the optional fee");
        prop!(opt.lamports() as u128 == o0 as u128 + o as u128, "the collector of the optional fee gets exactly that");
        prop!(fp.lamports() as u128 == f0 as u128 + chf_token as u128 + pvf as u128 + rent_back as u128, "the fee payer gets its fees and rent back");
        prop!(col.lamports() as u128 == c0 as u128 + net as u128, "the fee collector gets the network fee");
        prop!(pool.lamports() as u128 + sent as u128 + o as u128 + chf_token as u128 + pvf as u128 + net as u128 == p0 as u128, "the pool pays exactly these");
        prop!(pool.lamports() >= rent(pool.data_len()), "the pool stays rent-exempt");
        prop!(v.lamports() == 0 && (dup.lamports() == 0) == !skip, "the accounts of the verification are closed");
        prop!(view(v, |v| v.get_state() == VerificationState::Closed), "a verification pays out once");
        let mut q = CommitmentQueue::new(&mut qa);
        prop!(q.len() == 1, "one commitment is queued");
        let c = q.view_first().unwrap();
        prop!(c.commitment == j.output_commitment.reduce() && c.fee_version == 0 && c.min_batching_rate == 2, "the output commitment is queued");
        prop!(MetadataQueue::new(&mut ma).view_first() == Ok([3; 17]), "with its metadata");
        if amount > 0 { reach!("paid out"); } else { reach!("merged"); }
    } else if state == 4 && token == 0 && who == 0 && optional <= amount {
        // the pool has what it takes: then the verification can be finished
        let need = amount as u128 + chf_token as u128 + pvf as u128 + net as u128 + rent(pool.data_len()) as u128;
        prop!((p0 as u128) < need, "a payout fails only if the pool cannot pay");
    }
}

/// Solana Pay: the transfer to the recipient is an instruction of its own, and the last one
#[no_mangle]
pub extern "C" fn c15_solana_pay() {
    let amount: u64 = any();
    let optional: u64 = any();
    let chf_token: u64 = any();
    let pvf: u64 = any();
    let net: u64 = any();
    let p0: u64 = any();
    let ix_amount: u64 = any();
    let to: u8 = any();
    let from: u8 = any();
    let kind: u8 = any();
    init();
    assume(amount > 0 && optional <= amount && p0 < 1 << 60 && to < 2 && from < 2 && kind < 4);
    let to = pin(to as u64);
    let from = pin(from as u64);
    let kind = pin(kind as u64);
    let mut j = join_split(1, 0);
    j.amount = amount;
    j.optional_fee.amount = optional;
    let mut s = send(j.clone());
    s.solana_pay_transfer = true;
    let v = verification(|v| {
        v.set_request(&ProofRequest::Send(s.clone()));
        v.set_state(&VerificationState::Finalized);
        v.set_is_verified(&ElusivOption::Some(true));
        let mut d = other_data(key(1), key(1), key(2), 0);
        d.network_fee = net; d.commitment_hash_fee_token = chf_token; d.proof_verification_fee = pvf;
        v.set_other_data(&d);
    });
    let dup = duplicate(&j);
    let fp = wallet(key(1), 5).empty();
    let rcp = wallet(key(2), 6).empty();
    let opt = wallet(key(9), 7).empty();
    let pool = pda::<PoolAccount>(p0);
    let col = pda::<FeeCollectorAccount>(3_000_000);
    let pay = system_instruction::transfer(if from == 0 { fp.key } else { opt.key }, if to == 0 { rcp.key } else { fp.key }, ix_amount);
    let mut nop = pay.clone();
    nop.program_id = key(60);
    let list = match kind { 0 => vec![nop.clone(), pay.clone()], 1 => vec![nop.clone(), pay.clone(), nop.clone()], 2 => vec![nop.clone()], _ => vec![nop.clone(), nop.clone(), pay.clone()] };
    let ixs = instructions_account(&list, 0);
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut ma = MetadataQueueAccount::new(bytes(<MetadataQueueAccount as SizedAccount>::SIZE)).unwrap();
    let r = finalize_verification_transfer_lamports(fp, rcp, pool, col, opt, &mut qa, &mut ma, v, dup, ixs, 0);
    if r.is_ok() {
        prop!(kind == 0 || kind == 3, "the payment is the last instruction");
        prop!(to == 0 && from == 0 && ix_amount == amount - optional, "the payment goes from the fee payer to the recipient, with the exact amount");
        prop!(pool.lamports() as u128 + amount as u128 + chf_token as u128 + pvf as u128 + net as u128 == p0 as u128, "the pool pays the amount and the fees, and nothing else");
        prop!(opt.lamports() as u128 == 7 + optional as u128, "the collector of the optional fee gets exactly that");
        reach!("paid");
    }
}

/// An invalid proof: nothing is paid out but the reserved fees, which go to the fee collector
#[no_mangle]
pub extern "C" fn c15_invalid() {
    let amount: u64 = any();
    let optional: u64 = any();
    let chf: u64 = any();
    let chf_token: u64 = any();
    let pvf: u64 = any();
    let net: u64 = any();
    let sub: u64 = any();
    let p0: u64 = any();
    let skip = any_bool();
    let state: u8 = any();
    init();
    assume(p0 < 1 << 60 && state < 6);
    let state = pin(state as u64);
    let mut j = join_split(1, 0);
    j.amount = amount;
    j.optional_fee.amount = optional;
    let states = [VerificationState::None, VerificationState::FeeTransferred, VerificationState::ProofSetup, VerificationState::InsertNullifiers, VerificationState::Finalized, VerificationState::Closed];
    let v = verification(|v| {
        v.set_request(&ProofRequest::Send(send(j.clone())));
        v.set_state(&states[state as usize]);
        v.set_is_verified(&ElusivOption::Some(false));
        let mut d = other_data(key(1), key(1), key(2), 0);
        d.network_fee = net; d.commitment_hash_fee = Lamports(chf); d.commitment_hash_fee_token = chf_token; d.proof_verification_fee = pvf; d.subvention = sub; d.skip_nullifier_pda = skip;
        v.set_other_data(&d);
    });
    let dup = duplicate(&j);
    let fp = wallet(key(1), 5).empty();
    let rcp = wallet(key(2), 6).empty();
    let opt = wallet(key(9), 7).empty();
    let pool = pda::<PoolAccount>(p0);
    let col = pda::<FeeCollectorAccount>(3_000_000);
    let ixs = instructions_account(&[], 0);
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut ma = MetadataQueueAccount::new(bytes(<MetadataQueueAccount as SizedAccount>::SIZE)).unwrap();
    let (v0, d0, c0) = (v.lamports(), dup.lamports(), col.lamports());
    let r = finalize_verification_transfer_lamports(fp, rcp, pool, col, opt, &mut qa, &mut ma, v, dup, ixs, 0);
    if r.is_ok() {
        prop!(state == 4, "only a finalized verification can be closed");
        prop!(fp.lamports() == 5 && rcp.lamports() == 6 && opt.lamports() == 7, "an invalid proof pays nobody");
        prop!(pool.lamports() as u128 + sub as u128 + chf as u128 == p0 as u128, "the pool gives back what was reserved");
        prop!(col.lamports() as u128 == c0 as u128 + v0 as u128 + if skip { 0 } else { d0 as u128 } + sub as u128 + chf as u128, "to the fee collector");
        prop!(CommitmentQueue::new(&mut qa).len() == 0 && MetadataQueue::new(&mut ma).len() == 0, "no commitment of an invalid proof is queued");
        prop!(v.lamports() == 0 && view(v, |v| v.get_state() == VerificationState::Closed), "the verification is closed");
        reach!("closed");
    }
}

/// Two Solana Pay transfers finalized in one transaction: each needs a payment of its own
#[no_mangle]
pub extern "C" fn c15_solana_pay_twice() {
    let amount: u64 = any();
    let kind: u8 = any();
    init();
    assume(amount > 0 && amount < 1 << 50 && kind < 4);
    let kind = pin(kind as u64);
    let fp = wallet(key(1), 5).empty();
    let rcp = wallet(key(2), 6).empty();
    let pool = pda::<PoolAccount>(1 << 55);
    let col = pda::<FeeCollectorAccount>(3_000_000);
    let pay = system_instruction::transfer(fp.key, rcp.key, amount);
    let mut nop = pay.clone();
    nop.program_id = key(60);
    let mut fin = pay.clone();
    fin.program_id = elusiv::id();
    fin.data = vec![elusiv::instruction::ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX, 0];
    // the second finalization follows at once, or later, or before a second payment
    let (list, second) = match kind { 0 => (vec![fin.clone(), fin.clone(), pay.clone()], 1), 1 => (vec![fin.clone(), nop.clone(), fin.clone(), pay.clone()], 2), 2 => (vec![fin.clone(), fin.clone(), nop.clone(), pay.clone()], 1), _ => (vec![fin.clone(), fin.clone(), pay.clone(), pay.clone()], 1) };
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut ma = MetadataQueueAccount::new(bytes(<MetadataQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut done = 0;
    for i in 0..2u16 {
        let mut j = join_split(1 + i as usize, 0);
        j.amount = amount;
        let mut s = send(j.clone());
        s.solana_pay_transfer = true;
        let v = verification(|v| {
            v.set_request(&ProofRequest::Send(s.clone()));
            v.set_state(&VerificationState::Finalized);
            v.set_is_verified(&ElusivOption::Some(true));
            v.set_other_data(&other_data(key(1), key(1), key(2), 0));
        });
        let ixs = instructions_account(&list, if i == 0 { 0 } else { second });
        if finalize_verification_transfer_lamports(fp, rcp, pool, col, fp, &mut qa, &mut ma, v, duplicate(&j), ixs, 0).is_ok() { done += 1; } else { break; }
    }
    // a failed instruction takes the whole transaction with it
    prop!(done < 2 || kind == 3, "one payment serves one transfer only");
}
