//! Storing a base commitment: who pays what, and which requests are accepted.
use crate::env::*;
use crate::proofs::*;
use crate::sym::*;
use crate::tree::*;
use crate::{prop, reach};
use elusiv::buffer::RingBuffer;
use elusiv::processor::*;
use elusiv::state::commitment::*;
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::token::{elusiv_token, Lamports, TOKENS};
use elusiv::types::*;
use elusiv_types::accounts::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv_types::UnverifiedAccountInfo;
use solana_program::entrypoint::ProgramResult;
use spl_associated_token_account::get_associated_token_address as ata;

/// An account with a Pyth price
pub fn price_account(token: usize, price: i64, expo: i32) -> Info {
    let d = bytes(3312);
    d[..4].copy_from_slice(&0xa1b2c3d4u32.to_le_bytes());
    d[4..8].copy_from_slice(&2u32.to_le_bytes());
    d[8..12].copy_from_slice(&3u32.to_le_bytes());
    d[20..24].copy_from_slice(&expo.to_le_bytes());
    d[208..216].copy_from_slice(&price.to_le_bytes());
    d[216..224].copy_from_slice(&1u64.to_le_bytes());
    d[224..228].copy_from_slice(&1u32.to_le_bytes());
    acc(TOKENS[token].pyth_usd_price_key).owner(key(70)).writable(false).data(d)
}
pub fn program_fee(per_tx: u64, bps: u64, subvention: u64, reward: u64) -> ProgramFee {
    ProgramFee { lamports_per_tx: Lamports(per_tx), base_commitment_network_fee: BasisPointFee(bps), proof_network_fee: BasisPointFee(0), base_commitment_subvention: Lamports(subvention),
        proof_subvention: Lamports(0), warden_hash_tx_reward: Lamports(reward), warden_proof_reward: Lamports(0), proof_base_tx_count: ProgramFee::proof_base_tx_count() }
}
struct S {
    sender: Info, sender_account: Info, fp: Info, fp_account: Info, pool: Info, pool_account: Info, col: Info, col_account: Info, sol: Info, usd: Info,
    governor: GovernorAccount<'static>, storage: Storage, hashing: Info, buffer: BaseCommitmentBufferAccount<'static>, token_program: Info, system: Info, bump: u8,
}
fn setup(token: u16, fee: &ProgramFee, rate: u32, next: u32, sender: u64, fp: u64, col: u64) -> S {
    let mut governor = GovernorAccount::new(bytes(<GovernorAccount as SizedAccount>::SIZE)).unwrap();
    governor.set_program_fee(fee);
    governor.set_commitment_batching_rate(&rate);
    governor.set_fee_version(&7);
    let mut storage = storage_bare();
    storage.set_next_commitment_ptr(&next);
    let (k, bump) = BaseCommitmentHashingAccount::find(Some(5));
    let pool = pda::<PoolAccount>(1_000_000);
    let c = pda::<FeeCollectorAccount>(if token == 0 { col } else { 1_000_000 });
    let mint = elusiv_token(token).unwrap().mint;
    let s = wallet(key(21), if token == 0 { sender } else { 1 }).signer(true).empty();
    let f = wallet(key(1), fp).signer(true).empty();
    let t = |k, o: Info, n| if token == 0 { o } else { token_account(k, &mint, o.key, n) };
    S { sender: s, sender_account: t(key(22), s, sender), fp: f, fp_account: t(key(4), f, 9), pool, pool_account: t(ata(pool.key, &mint), pool, 10), col: c, col_account: t(ata(c.key, &mint), c, col),
        sol: price_account(0, 25_000_000, -6), usd: price_account(1, 1_000_000, -6), governor, storage, hashing: wallet(k, 0).empty(),
        buffer: BaseCommitmentBufferAccount::new(bytes(<BaseCommitmentBufferAccount as SizedAccount>::SIZE)).unwrap(), token_program: if token == 0 { acc(solana_program::system_program::ID).empty() } else { acc(spl_token::ID).empty() },
        system: acc(solana_program::system_program::ID).empty(), bump }
}
fn run(s: &mut S, index: u32, request: &BaseCommitmentHashRequest) -> ProgramResult {
    store_base_commitment(s.sender, s.sender_account, s.fp, s.fp_account, s.pool, s.pool_account, s.col, s.col_account, s.sol, s.usd, &s.governor, &s.storage, UnverifiedAccountInfo::new(s.hashing),
        &mut s.buffer, s.token_program, s.system, index, s.bump, request.clone(), [6; 17])
}
fn request(token: u16, amount: u64, rate: u32) -> BaseCommitmentHashRequest {
    BaseCommitmentHashRequest { base_commitment: el(20), recent_commitment_index: 0, amount, token_id: token, commitment: el(21), fee_version: 7, min_batching_rate: rate }
}
fn hashing<T>(s: &S, f: impl Fn(&BaseCommitmentHashingAccount) -> T) -> T { let mut b = s.hashing.data.borrow_mut(); let a = BaseCommitmentHashingAccount::new(&mut b).unwrap(); f(&a) }

/// SOL: everyone pays and gets exactly what is due
#[no_mangle]
pub extern "C" fn c13_lamports() {
    let per_tx: u64 = any();
    let bps: u8 = any();
    let sub: u64 = any();
    let reward: u64 = any();
    let amount: u64 = any();
    let (s0, f0, c0): (u64, u64, u64) = (any(), any(), any());
    let rate: u8 = any();
    init();
    assume(per_tx < 1 << 40 && bps < 4 && reward < 1 << 40 && s0 < 1 << 60 && f0 < 1 << 60 && c0 < 1 << 60 && rate < 5);
    let rate = pin(rate as u64) as u32;
    let bps = [0, 1, 50, 10_000][pin(bps as u64) as usize];
    let fee = program_fee(per_tx, bps, sub, reward);
    let mut s = setup(0, &fee, rate, 0, s0, f0, c0);
    let all = [s.sender, s.fp, s.pool, s.col, s.hashing];
    let before = total(&all);
    let pool0 = s.pool.lamports();
    let r = run(&mut s, 5, &request(0, amount, rate));
    let comp = fee.base_commitment_hash_computation_fee().0 as u128 + fee.commitment_hash_computation_fee(rate).0 as u128;
    let net = (bps * amount / 10_000) as u128;
    let open = rent(<BaseCommitmentHashingAccount as SizedAccount>::SIZE) as u128;
    if r.is_ok() {
        prop!(total(&all) == before, "no lamports appear or vanish");
        prop!(amount >= 1_000 && amount <= 360_000_000_000, "amounts within the limits only");
        prop!(s.pool.lamports() as u128 == pool0 as u128 + amount as u128 + comp, "the pool gets the amount and the computation fees");
        prop!(s.sender.lamports() as u128 + amount as u128 + net + comp == s0 as u128 + sub as u128, "the sender pays the amount and the fees less the subvention");
        prop!(s.fp.lamports() as u128 + open == f0 as u128, "the fee payer only pays the rent of the hashing account");
        prop!(s.col.lamports() as u128 + sub as u128 == c0 as u128 + net, "the fee collector gets the network fee and pays the subvention");
        prop!(s.hashing.lamports() as u128 == open, "the hashing account is rent-exempt");
        reach!("stored");
    } else if amount >= 1_000 && amount <= 360_000_000_000 && sub as u128 <= comp {
        prop!((s0 as u128) < amount as u128 + net + comp || (f0 as u128) < comp + open || (c0 as u128) < sub as u128 + rent(s.col.data_len()) as u128, "a proper request fails only for lack of funds");
    }
}

/// Tokens: concrete prices and fees, every amount
#[no_mangle]
pub extern "C" fn c13_token() {
    let amount: u64 = any();
    let (s0, c0): (u64, u64) = (any(), any());
    let f0: u64 = any();
    let bps: u8 = any();
    init();
    assume(bps < 4 && s0 < 1 << 60 && c0 < 1 << 60 && f0 < 1 << 60);
    let bps = [0, 1, 50, 10_000][pin(bps as u64) as usize];
    // 1 SOL = 25 USD, 1 lamport = 0.025 micro-USDC
    let fee = program_fee(5_000, bps, 40_000, 1_000);
    let mut s = setup(1, &fee, 1, 0, s0, f0, c0);
    let all = [s.sender, s.fp, s.pool, s.col, s.hashing];
    let before = total(&all);
    let (p0, l0) = (token_balance(s.pool_account), s.pool.lamports());
    let r = run(&mut s, 5, &request(1, amount, 1));
    let comp = fee.base_commitment_hash_computation_fee().0 + fee.commitment_hash_computation_fee(1).0;
    let comp_token = (comp / 40) as u128;
    let sub = 1_000u128;
    let net = (bps * amount / 10_000) as u128;
    let open = rent(<BaseCommitmentHashingAccount as SizedAccount>::SIZE) as u128;
    if r.is_ok() {
        prop!(amount >= 1_000 && amount <= 8_000_000_000, "amounts within the limits only");
        prop!(total(&all) == before && s.pool.lamports() == l0 + comp && s.fp.lamports() as u128 + open + comp as u128 == f0 as u128, "the fee payer pays the computation fees in lamports");
        prop!(token_balance(s.pool_account) as u128 == p0 as u128 + amount as u128, "the pool gets the amount");
        prop!(token_balance(s.sender_account) as u128 + amount as u128 + net + comp_token == s0 as u128 + sub, "the sender pays the amount and the fees less the subvention");
        prop!(token_balance(s.fp_account) as u128 == 9 + comp_token, "the fee payer gets the computation fees in tokens");
        prop!(token_balance(s.col_account) as u128 + sub == c0 as u128 + net, "the fee collector gets the network fee and pays the subvention");
        reach!("stored");
    } else {
        prop!(!(amount >= 1_000 && amount <= 8_000_000_000 && s0 as u128 >= amount as u128 + net + comp_token && f0 as u128 >= comp as u128 + open && c0 as u128 >= sub), "a proper request fails only for lack of funds");
    }
}

/// The request: limits, versions, recent index; and what ends up in the hashing account
#[no_mangle]
pub extern "C" fn c13_request() {
    let rci: u32 = any();
    let next: u32 = any();
    let version: u32 = any();
    let rate: u32 = any();
    let token: u16 = any();
    let kind: u8 = any();
    let amount: u64 = any();
    init();
    assume(next <= 1 << 20 && kind < 6 && amount > 999 && amount < 1 << 32);
    let kind = pin(kind as u64);
    let fee = program_fee(5_000, 100, 0, 0);
    let mut s = setup(0, &fee, 2, next, 1 << 50, 1 << 50, 1 << 40);
    // scalar field order
    let mut order = [0u8; 32];
    order.copy_from_slice(&[1, 0, 0, 240, 147, 245, 225, 67, 145, 112, 185, 121, 72, 232, 51, 40, 93, 88, 129, 129, 182, 69, 80, 184, 41, 160, 49, 225, 114, 78, 100, 48]);
    let mut below = order;
    below[0] = 0;
    let zero = [100, 72, 182, 70, 132, 238, 57, 168, 35, 213, 254, 95, 213, 36, 49, 220, 129, 228, 129, 123, 242, 195, 234, 60, 171, 158, 35, 158, 251, 245, 152, 32];
    let mut q = request(token, amount, rate);
    q.recent_commitment_index = rci;
    q.fee_version = version;
    q.base_commitment = match kind { 1 => RawU256::new(order), 2 => RawU256::new(below), 3 => RawU256::new(zero), 4 => { let _ = s.buffer.try_insert(&el(20).skip_mr()); el(20) } _ => el(20) };
    if kind == 5 { q.commitment = RawU256::new(order); }
    let r = run(&mut s, 5, &q);
    let ok = rci <= next && next - rci < 128 && version == 7 && rate == 2 && token == 0 && (kind == 0 || kind == 2);
    prop!(r.is_err() || ok, "recent index, fee version, batching rate, token, canonical and new commitments only");
    prop!(r.is_ok() || !ok, "a proper request is accepted");
    if r.is_ok() {
        hashing(&s, |h| {
            prop!(h.get_is_active() && h.get_instruction() == 0 && h.get_fee_payer() == s.fp.key.to_bytes(), "a fresh computation of its fee payer");
            prop!(h.get_fee_version() == version && h.get_min_batching_rate() == rate && h.get_metadata() == [6; 17], "with the parameters of the request");
            let st = h.get_state().0;
            let b = q.base_commitment.reduce();
            prop!(elusiv::fields::fr_to_u256_le(&st[0]) == [0; 32] && elusiv::fields::fr_to_u256_le(&st[1]) == b, "hashing the base commitment");
            // amount + token << 64 + recent index << 80
            let y = fr(&[amount, token as u64 + ((rci as u64) << 16), 0, 0]);
            prop!(st[2] == y, "and the amount, token and recent index");
        });
        prop!(s.buffer.contains(&q.base_commitment.skip_mr()), "the base commitment is remembered");
        reach!("accepted");
    }
}

/// The accounts
#[no_mangle]
pub extern "C" fn c13_accounts() {
    let who: u8 = any();
    let sol = any_bool();
    init();
    assume(who < 12);
    let who = pin(who as u64);
    let token = if pin(sol as u64) == 1 { 0 } else { 1 };
    let fee = program_fee(5_000, 100, 40_000, 1_000);
    let mut s = setup(token, &fee, 1, 0, 1 << 40, 1 << 40, 1 << 40);
    let mint = elusiv_token(1).unwrap().mint;
    let w = |k, n| if token == 0 { wallet(key(k), n).empty() } else { token_account(key(k), &mint, &key(90), n) };
    match who {
        1 => s.pool_account = w(91, 10),
        2 => s.col_account = w(91, 1 << 40),
        3 => s.sender = wallet(*s.sender.key, 1 << 40).empty(),
        4 => s.fp = wallet(*s.fp.key, 1 << 40).empty(),
        5 => s.hashing = wallet(key(92), 0).empty(),
        6 => { s.hashing = acc(*s.hashing.key).lamports(1 << 30).data(bytes(<BaseCommitmentHashingAccount as SizedAccount>::SIZE)) }
        7 => s.system = acc(key(93)).empty(),
        8 => s.token_program = acc(key(93)).empty(),
        9 => { let a = s.sol; let b = s.usd; s.sol = b; s.usd = a; }
        10 => s.sol.data.borrow_mut()[224] = 0,
        11 => s.usd.data.borrow_mut()[224] = 0,
        _ => {}
    }
    if token == 0 && who == 3 { s.sender_account = s.sender; }
    let index = if who == 0 { 5 } else { 5 };
    let r = run(&mut s, index, &request(token, 1_000_000, 1));
    let price = who >= 9;
    if r.is_ok() {
        prop!(who == 0 || price && token == 0, "every account is the one it has to be, and both payers sign");
        if token == 0 { reach!("SOL"); } else { reach!("token"); }
    } else { prop!(who != 0 && !(price && token == 0), "a proper request is accepted"); }
}
