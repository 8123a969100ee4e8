//! Finalizing a token transfer: everyone gets exactly what is due to them.
use crate::env::*;
use crate::proofs::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::bytes::ElusivOption;
use elusiv::processor::*;
use elusiv::state::commitment::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::proof::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::token::{elusiv_token, Lamports};
use elusiv_types::accounts::{ProgramAccount, SizedAccount};
use spl_associated_token_account::get_associated_token_address as ata;

/// Amounts of a verification
struct Due { amount: u64, optional: u64, chf: u64, chf_token: u64, pvf: u64, net: u64, sub: u64, rent_token: u64, p0: u64, l0: u64 }
fn due() -> Due { Due { amount: any(), optional: any(), chf: any(), chf_token: any(), pvf: any(), net: any(), sub: any(), rent_token: any(), p0: any(), l0: any() } }
/// Its accounts
struct Parties { fp: Info, fp_account: Info, recipient: Info, wallet: Info, pool: Info, pool_account: Info, col: Info, col_account: Info, opt: Info, v: Info, dup: Info, mint: Info, token_program: Info, other: Info, other_account: Info }

/// recipient: 0 token account, 1 token account of another mint, 2 wallet, 3 uninitialized token account, 4 associated token account, 5 missing associated token account
fn parties(d: &Due, kind: u64, state: VerificationState, valid: bool, skip: bool) -> (Parties, elusiv::types::JoinSplitPublicInputs) {
    let (mint, other_mint) = (elusiv_token(1).unwrap().mint, elusiv_token(2).unwrap().mint);
    let mut j = join_split(1, 1);
    j.amount = d.amount;
    j.optional_fee.amount = d.optional;
    let mut s = send(j.clone());
    s.recipient_is_associated_token_account = kind >= 4;
    let w = wallet(key(2), 11).empty();
    let fp = wallet(key(1), 100_000_000).signer(true).empty();
    let recipient = match kind {
        0 => token_account(key(3), &mint, w.key, 6),
        1 => token_account(key(3), &other_mint, w.key, 6),
        2 => wallet(key(3), 6).empty(),
        3 => { let a = token_account(key(3), &mint, w.key, 6); a.data.borrow_mut()[108] = 0; a }
        4 => token_account(ata(w.key, &mint), &mint, w.key, 6),
        _ => wallet(ata(w.key, &mint), 0).empty(),
    };
    let pool = pda::<PoolAccount>(d.l0);
    let col = pda::<FeeCollectorAccount>(3_000_000);
    let v = verification(|v| {
        v.set_request(&ProofRequest::Send(s.clone()));
        v.set_state(&state);
        v.set_is_verified(&ElusivOption::Some(valid));
        let mut o = other_data(key(1), key(4), if kind >= 4 { *w.key } else { *recipient.key }, 1);
        o.network_fee = d.net; o.commitment_hash_fee = Lamports(d.chf); o.commitment_hash_fee_token = d.chf_token; o.proof_verification_fee = d.pvf; o.subvention = d.sub; o.associated_token_account_rent = d.rent_token;
        o.skip_nullifier_pda = skip; o.min_batching_rate = 2;
        v.set_other_data(&o);
    });
    let p = Parties {
        fp, fp_account: token_account(key(4), &mint, fp.key, 7), recipient, wallet: w, pool, pool_account: token_account(ata(pool.key, &mint), &mint, pool.key, d.p0),
        col, col_account: token_account(ata(col.key, &mint), &mint, col.key, 8), opt: token_account(key(9), &mint, &key(30), 9), v, dup: duplicate(&j),
        mint: acc(mint).owner(spl_token::ID).writable(false).data(bytes(82)), token_program: acc(spl_token::ID).empty(),
        other: wallet(key(51), 3).empty(), other_account: token_account(key(50), &mint, &key(31), 3),
    };
    (p, j)
}
fn tokens(p: &Parties) -> u128 {
    let mut n = 0u128;
    for a in [p.fp_account, p.recipient, p.pool_account, p.col_account, p.opt, p.other_account] { if *a.owner == spl_token::ID { n += token_balance(a) as u128; } }
    n
}
fn lamports(p: &Parties) -> u128 { total(&[p.fp, p.fp_account, p.recipient, p.wallet, p.pool, p.pool_account, p.col, p.col_account, p.opt, p.v, p.dup, p.other, p.other_account]) }
const STATES: [VerificationState; 6] = [VerificationState::None, VerificationState::FeeTransferred, VerificationState::ProofSetup, VerificationState::InsertNullifiers, VerificationState::Finalized, VerificationState::Closed];

/// A valid proof
#[no_mangle]
pub extern "C" fn c16_valid() {
    let d = due();
    let kind: u8 = any();
    let who: u8 = any();
    let state: u8 = any();
    let skip = any_bool();
    init();
    assume(kind < 6 && who < 8 && state < 6 && d.p0 < 1 << 60 && d.l0 < 1 << 60);
    assume(who == 0 || state == 4);
    let kind = pin(kind as u64);
    let who = pin(who as u64);
    let state = pin(state as u64);
    let (p, j) = parties(&d, kind, STATES[state as usize].clone(), true, skip);
    let ixs = instructions_account(&[], 0);
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut ma = MetadataQueueAccount::new(bytes(<MetadataQueueAccount as SizedAccount>::SIZE)).unwrap();
    let (t0, l0) = (tokens(&p), lamports(&p));
    let (v0, d0, f0) = (p.v.lamports(), p.dup.lamports(), p.fp.lamports());
    let o = |n: u64, a: Info| if who == n { p.other_account } else { a };
    let r = finalize_verification_transfer_token(if who == 1 { p.other } else { p.fp }, o(2, p.fp_account), o(3, p.recipient), if who == 4 { p.other } else { p.wallet }, p.pool, o(5, p.pool_account),
        p.col, o(6, p.col_account), o(7, p.opt), &mut qa, &mut ma, p.v, p.dup, p.token_program, p.mint, ixs, 0);
    if r.is_ok() {
        prop!(tokens(&p) == t0, "no tokens appear or vanish");
        prop!(lamports(&p) == l0, "no lamports appear or vanish");
        prop!(state == 4, "only a verification whose nullifiers are inserted can pay out");
        let ok = match who { 1 | 2 | 5 | 6 => false, 3 => d.amount == 0, 4 => d.amount == 0 || kind < 4, 7 => d.amount == 0 || d.optional == 0, _ => true };
        prop!(ok, "nobody else can be paid");
        let opened = kind == 5 && d.amount > 0;
        let rent_token = if opened { d.rent_token as u128 } else { 0 };
        let (sent, opt) = if d.amount == 0 { (0u128, 0u128) } else { (d.amount as u128 - d.optional as u128 - rent_token, d.optional as u128) };
        let valid = kind == 0 || kind >= 4;
        if d.amount > 0 || kind != 5 { if *p.recipient.owner == spl_token::ID { prop!(token_balance(p.recipient) as u128 == if kind == 5 { 0 } else { 6 } + if valid { sent } else { 0 }, "the recipient gets the amount less the optional fee and a rent paid"); } }
        prop!(token_balance(p.opt) as u128 == 9 + opt, "the collector of the optional fee gets exactly that");
        prop!(token_balance(p.fp_account) as u128 == 7 + d.chf_token as u128 + d.pvf as u128 + rent_token, "the fee payer gets its fees and a rent paid back");
        prop!(token_balance(p.col_account) as u128 == 8 + d.net as u128 + if valid { 0 } else { sent }, "the fee collector gets the network fee, and what cannot be delivered");
        prop!(token_balance(p.pool_account) as u128 + sent + opt + d.chf_token as u128 + d.pvf as u128 + rent_token + d.net as u128 == d.p0 as u128, "the pool pays exactly these");
        // lamports: the rent of the closed accounts, and the reserved rent of the associated token account
        let reserved = if kind >= 4 && d.amount > 0 { rent(165) } else { 0 };
        prop!(p.pool.lamports() as u128 + reserved as u128 == d.l0 as u128, "the pool returns a reserved rent");
        let back = v0 + if skip { 0 } else { d0 };
        prop!(p.fp.lamports() == f0 + back + reserved - if opened { rent(165) } else { 0 }, "the fee payer gets its rent back");
        prop!(p.v.lamports() == 0 && (p.dup.lamports() == 0) == !skip && view(p.v, |v| v.get_state() == VerificationState::Closed), "the accounts of the verification are closed");
        let mut q = CommitmentQueue::new(&mut qa);
        prop!(q.len() == 1, "one commitment is queued");
        let c = q.view_first().unwrap();
        prop!(c.commitment == j.output_commitment.reduce() && c.fee_version == 0 && c.min_batching_rate == 2, "the output commitment is queued");
        prop!(MetadataQueue::new(&mut ma).view_first() == Ok([3; 17]), "with its metadata");
        if opened { reach!("account opened"); }
        if kind == 0 { reach!("paid out"); }
        if kind == 1 { reach!("undeliverable"); }
    }
}

/// An invalid proof: what was reserved goes to the fee collector
#[no_mangle]
pub extern "C" fn c16_invalid() {
    let d = due();
    let kind: u8 = any();
    let state: u8 = any();
    let skip = any_bool();
    init();
    assume((kind == 0 || kind == 4 || kind == 5) && state < 6 && d.p0 < 1 << 60 && d.l0 < 1 << 60);
    let kind = pin(kind as u64);
    let state = pin(state as u64);
    let (p, _) = parties(&d, kind, STATES[state as usize].clone(), false, skip);
    let ixs = instructions_account(&[], 0);
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut ma = MetadataQueueAccount::new(bytes(<MetadataQueueAccount as SizedAccount>::SIZE)).unwrap();
    let (v0, d0, f0, c0) = (p.v.lamports(), p.dup.lamports(), p.fp.lamports(), p.col.lamports());
    let r = finalize_verification_transfer_token(p.fp, p.fp_account, p.recipient, p.wallet, p.pool, p.pool_account, p.col, p.col_account, p.opt, &mut qa, &mut ma, p.v, p.dup, p.token_program, p.mint, ixs, 0);
    if r.is_ok() {
        prop!(state == 4, "only a finalized verification can be closed");
        // what init_verification_transfer_fee reserved
        let reserved = d.chf as u128 + if kind >= 4 { rent(165) as u128 } else { 0 };
        prop!(p.pool.lamports() as u128 + reserved == d.l0 as u128, "the pool gives back the lamports that were reserved");
        prop!(token_balance(p.pool_account) as u128 + d.sub as u128 == d.p0 as u128, "and the subvention");
        prop!(token_balance(p.col_account) as u128 == 8 + d.sub as u128 && p.col.lamports() as u128 == c0 as u128 + reserved + v0 as u128 + if skip { 0 } else { d0 as u128 }, "to the fee collector");
        prop!(p.fp.lamports() == f0 && token_balance(p.fp_account) == 7 && token_balance(p.opt) == 9 && (kind == 5 || token_balance(p.recipient) == 6), "an invalid proof pays nobody else");
        prop!(CommitmentQueue::new(&mut qa).len() == 0 && MetadataQueue::new(&mut ma).len() == 0, "no commitment of an invalid proof is queued");
        prop!(p.v.lamports() == 0 && view(p.v, |v| v.get_state() == VerificationState::Closed), "the verification is closed");
        reach!("closed");
    }
}
