//! Fees of a verification, and the steps before its finalization.
use crate::c13_store::price_account;
use crate::env::*;
use crate::proofs::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::bytes::ElusivOption;
use elusiv::processor::*;
use elusiv::proof::verifier::VerificationStep;
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::state::proof::*;
use elusiv::state::vkey::VKeyAccount;
use elusiv::token::{elusiv_token, Lamports};
use elusiv::types::*;
use elusiv_types::accounts::{ParentAccount, ProgramAccount, SizedAccount};
use solana_program::entrypoint::ProgramResult;
use spl_associated_token_account::get_associated_token_address as ata;

const STATES: [VerificationState; 6] = [VerificationState::None, VerificationState::FeeTransferred, VerificationState::ProofSetup, VerificationState::InsertNullifiers, VerificationState::Finalized, VerificationState::Closed];
fn state_no(s: VerificationState) -> u64 { match s { VerificationState::None => 0, VerificationState::FeeTransferred => 1, VerificationState::ProofSetup => 2, VerificationState::InsertNullifiers => 3, VerificationState::Finalized => 4, VerificationState::Closed => 5 } }
fn verified(n: u64) -> ElusivOption<bool> { match n { 0 => ElusivOption::None, 1 => ElusivOption::Some(false), _ => ElusivOption::Some(true) } }

struct F { fp: Info, fp_account: Info, pool: Info, pool_account: Info, col: Info, col_account: Info, sol: Info, usd: Info, governor: GovernorAccount<'static>, v: Info, token_program: Info, system: Info }
fn setup(token: u16, fee: &ProgramFee, rate: u32, n: u32, s: &SendPublicInputs, f0: u64, c0: u64, col_lamports: u64) -> F {
    let mut governor = GovernorAccount::new(bytes(<GovernorAccount as SizedAccount>::SIZE)).unwrap();
    governor.set_program_fee(fee);
    governor.set_commitment_batching_rate(&rate);
    governor.set_fee_version(&7);
    let v = verification(|v| {
        v.set_request(&ProofRequest::Send(s.clone()));
        v.set_state(&VerificationState::None);
        v.set_prepare_inputs_instructions_count(&n);
        let mut d = VerificationAccountData::default();
        d.fee_payer = RawU256::new(key(1).to_bytes());
        d.skip_nullifier_pda = true;
        v.set_other_data(&d);
    });
    let mint = elusiv_token(token).unwrap().mint;
    let fp = wallet(key(1), f0).signer(true).empty();
    let pool = pda::<PoolAccount>(1_000_000);
    let col = pda::<FeeCollectorAccount>(col_lamports);
    let t = |k, o: Info, n| if token == 0 { o } else { token_account(k, &mint, o.key, n) };
    F { fp, fp_account: t(key(4), fp, 9), pool, pool_account: t(ata(pool.key, &mint), pool, 10), col, col_account: t(ata(col.key, &mint), col, c0), sol: price_account(0, 25_000_000, -6), usd: price_account(1, 1_000_000, -6),
        governor, v, token_program: if token == 0 { acc(solana_program::system_program::ID).empty() } else { acc(spl_token::ID).empty() }, system: acc(solana_program::system_program::ID).empty() }
}
impl F {
    fn run(&self) -> ProgramResult {
        let mut b = self.v.data.borrow_mut();
        let mut v = VerificationAccount::new(&mut b).unwrap();
        init_verification_transfer_fee(self.fp, self.fp_account, self.pool, self.pool_account, self.col, self.col_account, self.sol, self.usd, &self.governor, &mut v, self.token_program, self.system, 0)
    }
}
fn fees(per_tx: u64, bps: u64, sub: u64, reward: u64, proof_reward: u64) -> ProgramFee {
    ProgramFee { lamports_per_tx: Lamports(per_tx), base_commitment_network_fee: BasisPointFee(3), proof_network_fee: BasisPointFee(bps), base_commitment_subvention: Lamports(1), proof_subvention: Lamports(sub),
        warden_hash_tx_reward: Lamports(reward), warden_proof_reward: Lamports(proof_reward), proof_base_tx_count: ProgramFee::proof_base_tx_count() }
}

/// SOL: what is paid out later is covered by the fee of the join-split and the subvention
#[no_mangle]
pub extern "C" fn c14_lamports() {
    let mut per_tx: u64 = any();
    let bps: u8 = any();
    let mut sub: u64 = any();
    let mut reward: u64 = any();
    let mut proof_reward: u64 = any();
    let amount: u64 = any();
    let optional: u64 = any();
    let fee: u64 = any();
    let (f0, c0): (u64, u64) = (any(), any());
    let rate: u8 = any();
    let n: u8 = any();
    let to_ata = any_bool();
    init();
    assume(per_tx < 1 << 40 && bps < 4 && reward < 1 << 40 && proof_reward < 1 << 40 && f0 < 1 << 60 && c0 < 1 << 60 && (rate == 0 || rate == 1 || rate == 4) && (n == 0 || n == 9 || n == 140));
    let rate = pin(rate as u64) as u32;
    let n = pin(n as u64) as u32;
    let bps = [0, 1, 50, 10_000][pin(bps as u64) as usize];
    let to_ata = pin(to_ata as u64) == 1;
    // every configuration without network fee; with it, one configuration
    if bps != 0 {
        assume(rate == 1 && n == 9);
        per_tx = 5_000; sub = 70_000; reward = 300; proof_reward = 8_000;
    }
    let p = fees(per_tx, bps, sub, reward, proof_reward);
    let mut j = join_split(1, 0);
    j.amount = amount;
    j.optional_fee.amount = optional;
    j.fee = fee;
    j.fee_version = 7;
    let mut s = send(j);
    s.recipient_is_associated_token_account = to_ata;
    let f = setup(0, &p, rate, n, &s, f0, c0, c0);
    let all = [f.fp, f.pool, f.col, f.v];
    let before = total(&all);
    let pool0 = f.pool.lamports();
    let r = f.run();
    let chf = p.commitment_hash_computation_fee(rate).0 as u128;
    let pvf = p.proof_verification_computation_fee(n as usize).0 as u128;
    let min = rent(0);
    if r.is_ok() {
        let (d, state) = view(f.v, |v| (v.get_other_data(), v.get_state()));
        let net = d.network_fee;
        prop!(net as u128 == bps as u128 * amount as u128 / 10_000, "the network fee is its share of the amount");
        prop!(d.commitment_hash_fee.0 as u128 == chf && d.commitment_hash_fee_token as u128 == chf && d.proof_verification_fee as u128 == pvf && d.subvention == sub && d.associated_token_account_rent == 0, "the fees due");
        prop!(chf + pvf + net as u128 <= fee as u128 + sub as u128, "the fee of the join-split covers what is paid out later, less the subvention");
        prop!(total(&all) == before, "no lamports appear or vanish");
        prop!(f.pool.lamports() as u128 == pool0 as u128 + chf + sub as u128, "the pool gets the subvention and the hashing fee");
        prop!(f.fp.lamports() as u128 + chf == f0 as u128 && f.col.lamports() as u128 + sub as u128 == c0 as u128, "from the fee payer and the fee collector");
        prop!(amount == 0 || amount >= min, "a recipient can always be rent-exempt");
        prop!(!to_ata, "no token account for SOL");
        prop!(state == VerificationState::FeeTransferred && d.skip_nullifier_pda && d.token_id == 0 && d.min_batching_rate == rate && d.recipient_wallet == ElusivOption::None, "the verification goes on");
        prop!(d.fee_payer.skip_mr() == f.fp.key.to_bytes() && d.fee_payer_account.skip_mr() == f.fp_account.key.to_bytes(), "of its fee payer");
        reach!("paid");
    } else if !to_ata && (amount == 0 || amount >= min) && amount < 1 << 50 {
        let net = (bps * amount / 10_000) as u128;
        let due = chf + pvf + net;
        prop!((fee as u128) + (sub as u128) < due || sub as u128 > due || (f0 as u128) < chf || (c0 as u128) < sub as u128 + rent(f.col.data_len()) as u128, "a proper request fails only for lack of funds");
    }
}

/// Tokens, at a fixed price: also the rent of a new token account is covered
#[no_mangle]
pub extern "C" fn c14_token() {
    let amount: u64 = any();
    let optional: u64 = any();
    let fee: u64 = any();
    let (f0, c0): (u64, u64) = (any(), any());
    let bps: u8 = any();
    let to_ata = any_bool();
    init();
    assume(bps < 3 && f0 < 1 << 60 && c0 < 1 << 60);
    let bps = [0, 50, 10_000][pin(bps as u64) as usize];
    let to_ata = pin(to_ata as u64) == 1;
    // 1 lamport = 0.025 micro-USDC
    let p = fees(5_000, bps, 40_000, 1_000, 8_000);
    let mut j = join_split(1, 1);
    j.amount = amount;
    j.optional_fee.amount = optional;
    j.fee = fee;
    j.fee_version = 7;
    let mut s = send(j);
    s.recipient_is_associated_token_account = to_ata;
    let f = setup(1, &p, 1, 9, &s, f0, c0, 1 << 30);
    let all = [f.fp, f.pool, f.col, f.v];
    let before = total(&all);
    let (pool0, t0) = (f.pool.lamports(), token_balance(f.pool_account));
    let r = f.run();
    let chf = p.commitment_hash_computation_fee(1).0 as u128;
    let pvf = p.proof_verification_computation_fee(9).0 as u128 / 40;
    let chf_token = chf / 40;
    let open = rent(165) as u128;
    let (l, t) = if to_ata { (open, open / 40) } else { (0, 0) };
    if r.is_ok() {
        let (d, state) = view(f.v, |v| (v.get_other_data(), v.get_state()));
        let net = d.network_fee as u128;
        prop!(net == bps as u128 * amount as u128 / 10_000, "the network fee is its share of the amount");
        prop!(d.commitment_hash_fee.0 as u128 == chf && d.commitment_hash_fee_token as u128 == chf_token && d.proof_verification_fee as u128 == pvf && d.subvention == 1_000 && d.associated_token_account_rent as u128 == t, "the fees due");
        prop!(chf_token + pvf + net <= fee as u128 + 1_000, "the fee of the join-split covers what is paid out later, less the subvention");
        prop!(!to_ata || amount as u128 >= t + optional as u128, "the amount covers the rent of the new account and the optional fee");
        prop!(total(&all) == before && f.pool.lamports() as u128 == pool0 as u128 + chf + l && f.fp.lamports() as u128 + chf + l == f0 as u128, "the fee payer reserves hashing fee and rent in lamports");
        prop!(token_balance(f.pool_account) == t0 + 1_000 && token_balance(f.col_account) as u128 + 1_000 == c0 as u128, "the pool gets the subvention from the fee collector");
        prop!(state == VerificationState::FeeTransferred && d.token_id == 1, "the verification goes on");
        if to_ata { reach!("with a new account"); } else { reach!("paid"); }
    } else if amount < 1 << 50 {
        let net = (bps * amount / 10_000) as u128;
        prop!(fee as u128 + 1_000 < chf_token + pvf + net || (f0 as u128) < chf + l || c0 < 1_000 || to_ata && (amount as u128) < t + optional as u128, "a proper request fails only for lack of funds");
    }
}

/// Accounts, states and versions
#[no_mangle]
pub extern "C" fn c14_accounts() {
    let who: u8 = any();
    let state: u8 = any();
    let version: u32 = any();
    let sol = any_bool();
    init();
    assume(who < 9 && state < 6);
    let who = pin(who as u64);
    let state = pin(state as u64);
    assume(who == 0 || state == 0 && version == 7);
    let token = if pin(sol as u64) == 1 { 0 } else { 1 };
    let p = fees(5_000, 50, 40_000, 1_000, 8_000);
    let mut j = join_split(1, token);
    j.amount = 1 << 30;
    j.fee = 1 << 30;
    j.fee_version = version;
    let mut f = setup(token, &p, 1, 9, &send(j), 1 << 40, 1 << 40, 1 << 40);
    view(f.v, |v| v.set_state(&STATES[state as usize]));
    let mint = elusiv_token(1).unwrap().mint;
    let w = |k, o, n| if token == 0 { wallet(key(k), n).empty() } else { token_account(key(k), &mint, o, n) };
    match who {
        1 => { let k = wallet(key(90), 1 << 40).signer(true).empty(); if token == 0 { f.fp_account = k; } f.fp = k; }
        2 => f.pool_account = w(91, f.pool.key, 10),
        3 => f.col_account = w(92, f.col.key, 1 << 40),
        4 => f.fp_account = if token == 0 { token_account(key(93), &mint, f.fp.key, 0) } else { token_account(key(93), &key(94), f.fp.key, 0) },
        5 => f.system = acc(key(95)).empty(),
        6 => f.token_program = acc(key(95)).empty(),
        7 => std::mem::swap(&mut f.sol, &mut f.usd),
        8 => f.usd = price_account(2, 1_000_000, -6),
        _ => {}
    }
    let r = f.run();
    if r.is_ok() {
        prop!(version == 7, "the fees of the current version");
        prop!(state == 0, "fees are transferred once");
        prop!(who == 0 || token == 0 && (who >= 6), "every account is the one it has to be");
        if token == 0 { reach!("SOL"); } else { reach!("token"); }
    } else { prop!(!(version == 7 && state == 0 && (who == 0 || token == 0 && who >= 6)), "a proper request is accepted"); }
}

/// The proof: set once, by the fee payer, after the fees
#[no_mangle]
pub extern "C" fn c14_proof() {
    let state: u8 = any();
    let done: u8 = any();
    let payer = any_bool();
    let step = any_bool();
    init();
    assume(state < 6 && done < 3);
    let state = pin(state as u64);
    let done = pin(done as u64);
    let payer = pin(payer as u64) == 1;
    let step = if pin(step as u64) == 1 { VerificationStep::CombinedMillerLoop } else { VerificationStep::PublicInputPreparation };
    let v = verification(|v| {
        v.set_request(&ProofRequest::Send(send(join_split(1, 0))));
        v.set_state(&STATES[state as usize]);
        v.set_is_verified(&verified(done));
        v.set_step(&step);
        v.set_other_data(&other_data(key(1), key(1), key(2), 0));
    });
    let before = v.data.borrow().to_vec();
    let proof = <Proof as borsh::BorshDeserialize>::deserialize(&mut &bytes(4096)[..]);
    let fp = wallet(if payer { key(1) } else { key(2) }, 5).signer(true).empty();
    let Ok(proof) = proof else { return };
    let r = view(v, |v| init_verification_proof(fp, v, 0, proof));
    if r.is_ok() {
        prop!(state == 1 && done == 0 && payer, "a proof is set once, by the fee payer, after the fees");
        view(v, |v| {
            prop!(v.get_state() == VerificationState::ProofSetup && v.get_is_verified() == ElusivOption::None && v.get_other_data() == other_data(key(1), key(1), key(2), 0), "and nothing else changes");
        });
        reach!("set");
    } else {
        prop!(!(state == 1 && done == 0 && payer), "a proof can be set");
        prop!(v.data.borrow()[..] == before[..], "a rejected proof changes nothing");
    }
}

/// Computing: with the key of the request, in the right states, never again after a result
#[no_mangle]
pub extern "C" fn c14_compute() {
    let state: u8 = any();
    let done: u8 = any();
    let step: u8 = any();
    let key_id: u32 = any();
    let setup = any_bool();
    let index: u8 = any();
    init();
    assume(state < 6 && done < 3 && step < 3 && index < 6);
    let state = pin(state as u64);
    let done = pin(done as u64);
    let setup = pin(setup as u64) == 1;
    let step = pin(step as u64);
    let index = pin(index as u64);
    let v = verification(|v| {
        v.set_request(&ProofRequest::Send(send(join_split(1, 0))));
        v.set_state(&STATES[state as usize]);
        v.set_is_verified(&verified(done));
        v.set_step(&match step { 0 => VerificationStep::PublicInputPreparation, 1 => VerificationStep::CombinedMillerLoop, _ => VerificationStep::FinalExponentiation });
        v.set_vkey_id(&5);
        v.set_other_data(&other_data(key(1), key(1), key(2), 0));
    });
    let child = acc(key(200)).data(bytes(1 + elusiv::proof::vkey::VerifyingKey::source_size(1)));
    let mut k = VKeyAccount::new_with_child_accounts(bytes(<VKeyAccount as SizedAccount>::SIZE), vec![Some(child as &_), None]).unwrap();
    k.set_version(&if setup { 1 } else { 0 });
    k.set_public_inputs_count(&1);
    let nop = solana_program::system_instruction::transfer(&key(1), &key(2), 3);
    let ixs = instructions_account(&vec![nop; 7], index as u16);
    let before = v.data.borrow().to_vec();
    // the Miller loop is only entered where it is refused
    assume(step != 1 || state != 2 || !setup || done != 0);
    let r = view(v, |v| compute_verification(v, &k, ixs, 0, key_id));
    prop!(v.data.borrow()[..] == before[..], "only the last instruction of a transaction computes");
    if r.is_ok() {
        prop!(setup && key_id == 5 && done == 0, "a known key, the one of the request, and no result yet");
        prop!(state == 0 || state == 2, "in the right state");
        prop!(step != 1, "pairings need the proof");
        reach!("computed");
    } else { prop!(!(setup && key_id == 5 && done == 0 && (state == 0 || state == 2) && step != 1), "a verification can be computed"); }
}
