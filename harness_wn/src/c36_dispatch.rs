//! From the instruction data to the processor: every instruction of the warden network only works on the accounts it is meant for.
use crate::env::*;
use crate::env::init;
use crate::sym::*;
use crate::wardens::*;
use crate::{prop, reach};
use borsh::BorshSerialize;
use elusiv_types::accounts::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv_types::bytes::ElusivOption;
use elusiv_types::TOKENS;
use elusiv_warden_network::apa::*;
use elusiv_warden_network::instruction::ElusivWardenNetworkInstruction as I;
use elusiv_warden_network::network::*;
use elusiv_warden_network::operator::WardenOperatorAccount;
use elusiv_warden_network::processor::*;
use elusiv_warden_network::warden::*;
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;

/// An account of an instruction: its address is fixed, it signs, it belongs to the program; another account of the same kind
struct A { i: Info, fixed: bool, derives: bool, signs: bool, owned: bool, optional: bool, other: Vec<Info> }
fn a(i: Info) -> A { A { i, fixed: false, derives: false, signs: false, owned: false, optional: false, other: vec![] } }
impl A {
    fn fixed(mut self) -> A { self.fixed = true; self }
    fn derives(mut self) -> A { self.derives = true; self }
    fn signs(mut self) -> A { self.signs = true; self }
    fn owned(mut self) -> A { self.owned = true; self }
    fn optional(mut self) -> A { self.optional = true; self }
}
fn copy(x: Info, k: Pubkey, bump: Option<u8>) -> Info {
    let d = x.data.borrow().to_vec().leak();
    if let Some(b) = bump { d[0] = b; }
    Acc { key: k, owner: *x.owner, lamports: x.lamports(), signer: x.is_signer, writable: x.is_writable }.data(d)
}
fn at<T: PDAAccount + SizedAccount>(k: (Pubkey, u8)) -> Info { let d = bytes(T::SIZE); d[0] = k.1; acc(k.0).lamports(rent(T::SIZE)).data(d) }
/// The account of type T at an offset, and the one at the next offset
fn pd<T: PDAAccount + SizedAccount>(offset: Option<u32>, f: impl Fn(&mut [u8])) -> A {
    let x = at::<T>(T::find(offset));
    f(&mut x.data.borrow_mut());
    let o = T::find(Some(offset.map_or(0, |o| o + 1)));
    let mut r = a(x).fixed();
    r.other.push(copy(x, o.0, Some(o.1)));
    r
}
/// The account of type T of key `k` (and offset), and those of another key and another offset
fn pk<T: PDAAccount + SizedAccount>(k: Pubkey, offset: Option<u32>, f: impl Fn(&mut [u8])) -> A {
    let x = at::<T>(T::find_with_pubkey(k, offset));
    f(&mut x.data.borrow_mut());
    let mut r = a(x).fixed();
    for o in [T::find_with_pubkey(key(0x77), offset), T::find_with_pubkey(k, Some(offset.map_or(0, |o| o + 1)))] { r.other.push(copy(x, o.0, Some(o.1))); }
    r
}
/// An account still to be opened
fn w<T: PDAAccount>(offset: Option<u32>) -> A {
    let mut r = a(wallet(T::find(offset).0, 0).empty()).fixed().derives();
    r.other.push(wallet(T::find(Some(offset.map_or(0, |o| o + 1))).0, 0).empty());
    r
}
fn wk<T: PDAAccount>(k: Pubkey, offset: Option<u32>) -> A {
    let mut r = a(wallet(T::find_with_pubkey(k, offset).0, 0).empty()).fixed().derives();
    for o in [T::find_with_pubkey(key(0x77), offset), T::find_with_pubkey(k, Some(offset.map_or(0, |o| o + 1)))] { r.other.push(wallet(o.0, 0).empty()); }
    r
}
/// A signer whose key is that of other accounts of the instruction: another signer is refused
fn signer(k: Pubkey) -> A { a(wallet(k, 1 << 40).signer(true).empty()).signs().fixed().derives() }
fn payer() -> A { a(wallet(key(1), 1 << 40).signer(true).empty()).signs() }
fn sys() -> A { a(acc(solana_program::system_program::ID).empty()).fixed() }
fn plain(k: u8) -> A { a(wallet(key(k), 5).empty()) }
const FILL: [u8; 16] = [3; 16];
fn named(k: Pubkey, operator: Option<Pubkey>, flags: u16) -> ElusivBasicWarden { warden(config(k, operator, &FILL, 1, flags)) }
fn put(d: &mut [u8], w: &ElusivBasicWarden) { let e = enc(w); let n = d.len(); d[n - e.len()..].copy_from_slice(&e); }
fn basic(id: u32, w: ElusivBasicWarden) -> A { pd::<BasicWardenAccount>(Some(id), |d| put(d, &w)) }
fn network(count: u32) -> A {
    pd::<BasicWardenNetworkAccount>(None, |d| {
        let h = d.len() - 512 * (4 + 3 + TOKENS.len() + 1) - 4;
        d[h..h + 4].copy_from_slice(&count.to_le_bytes());
        for i in 0..count as usize { d[h + 4 + 4 * i] = i as u8; }
    })
}
fn apa_network(ends: u8) -> A {
    pd::<ApaWardenNetworkAccount>(None, |d| {
        let n = d.len() - 6 - 6 * 32 - 6 * 559;
        let c = n - 6 * 558 - 24 - 33 - 4;
        d[c] = 6;
        for i in 0..6 {
            d[c + 4 + 33 + 4 * i] = i as u8;
            d[n + 559 * i] = ends >> i & 1;
            d[n + 559 * 6 + 32 * i..n + 559 * 6 + 32 * (i + 1)].copy_from_slice(key(80 + i as u8).as_ref());
        }
        if ends != 0x3f { d[c] = 2; }
    })
}
fn map(k: Pubkey, id: u32) -> A { pk::<BasicWardenMapAccount>(k, None, |d| { let n = d.len(); d[n - 4..].copy_from_slice(&id.to_le_bytes()); }) }

fn start() -> (Vec<A>, I) { (vec![payer(), w::<WardensAccount>(None), w::<BasicWardenNetworkAccount>(None), w::<ApaWardenNetworkAccount>(None), w::<ApaProposalsAccount>(None), sys()], I::Init) }
fn register() -> (Vec<A>, I) {
    let c = config(key(1), None, &FILL, 1, 7);
    (vec![signer(key(1)), w::<BasicWardenAccount>(Some(2)), wk::<BasicWardenMapAccount>(key(1), None), pd::<WardensAccount>(None, |d| { let n = d.len(); d[n - 4] = 2; }), network(2), sys()], I::RegisterBasicWarden { warden_id: 2, config: c })
}
fn state() -> (Vec<A>, I) { (vec![signer(key(1)), basic(2, named(key(1), None, 0))], I::UpdateBasicWardenState { warden_id: 2, is_active: true }) }
fn lut() -> (Vec<A>, I) { (vec![signer(key(1)), basic(2, named(key(1), None, 0)), plain(4)], I::UpdateBasicWardenLut { warden_id: 2 }) }
fn start_apa() -> (Vec<A>, I) { (vec![signer(key(1)), map(key(1), 9), w::<ApaWardenAccount>(Some(9)), apa_network(1), sys()], I::StartApaGenesisWardenApplication { warden_id: 9, quote_start: QuoteStart([3; 558]) }) }
fn complete_apa() -> (Vec<A>, I) { (vec![signer(key(1)), map(key(1), 1), apa_network(1)], I::CompleteApaGenesisWardenApplication { warden_id: 1, quote_end: QuoteEnd([3; 558]) }) }
fn confirm_apa() -> (Vec<A>, I) {
    let l = apa_network(0x3f);
    let m = { let mut d = l.i.data.borrow_mut(); ApaWardenNetworkAccount::new(&mut d).unwrap().confirmation_message() };
    (vec![signer(key(81)), pd::<ApaWardenAccount>(Some(1), |d| { let n = d.len(); d[n - 8] = 1; d[n - 4] = 1; }), l], I::ConfirmApaGenesisNetwork { warden_id: 1, confirmation_message: m })
}
fn operator() -> (Vec<A>, I) { (vec![signer(key(1)), wk::<WardenOperatorAccount>(key(1), None), sys()], I::RegisterWardenOperator { ident: string::<256>(&FILL), url: string::<256>(&FILL), jurisdiction: Some(3) }) }
fn confirm_operator() -> (Vec<A>, I) { (vec![signer(key(5)), basic(2, named(key(1), Some(key(5)), 0))], I::ConfirmBasicWardenOperation { warden_id: 2 }) }
fn open_stats() -> (Vec<A>, I) { (vec![A { signs: false, ..signer(key(8)) }, payer(), wk::<BasicWardenStatsAccount>(key(8), Some(2023)), sys()], I::OpenBasicWardenStatsAccount { year: 2023 }) }
fn track() -> (Vec<A>, I) {
    let mut s = A { derives: false, ..pk::<BasicWardenStatsAccount>(key(8), Some(2023), |d| { let n = d.len() - 3 * 367 * 4 - 10; d[n..n + 2].copy_from_slice(&2023u16.to_le_bytes()); }) };
    s.derives = false;
    let meta = |k| solana_program::instruction::AccountMeta::new(k, true);
    let ixs = [solana_program::instruction::Instruction { program_id: crate::c33_statistics::elusiv_id(), accounts: vec![meta(key(8)), meta(key(8)), meta(key(8)), meta(key(8))], data: vec![2] },
        solana_program::instruction::Instruction { program_id: elusiv_warden_network::id(), accounts: vec![], data: vec![] }];
    set_clock(1_680_000_000);
    (vec![A { signs: false, ..signer(key(8)) }, s, a(instructions_account(&ixs, 1)).fixed()], I::TrackBasicWardenStats { year: 2023, can_fail: true })
}
fn propose() -> (Vec<A>, I) {
    let p = ApaProposal { proponent: key(3), timestamp: 5, target: key(60), level: ApaLevel::Flag2, proponent_role: ApaProponentRole::Default, token_constraint: ElusivOption::None, reason: string::<512>(&FILL) };
    (vec![payer(), w::<ApaProposalAccount>(Some(6)), pd::<ApaProposalsAccount>(None, |d| { let n = d.len(); d[n - 4] = 6; }), wk::<ApaTargetMapAccount>(key(60), None), plain(4), sys()], I::ProposeApaProposal { proposal_id: 6, proposal: p })
}
fn add() -> (Vec<A>, I) { (vec![signer(METADATA_ATTESTER_AUTHORITY), wk::<BasicWardenAttesterMapAccount>(key(5), None), basic(2, named(key(5), None, 0)), sys()], I::AddMetadataAttester { warden_id: 2, attester: key(5) }) }
fn revoke() -> (Vec<A>, I) { (vec![signer(METADATA_ATTESTER_AUTHORITY), A { signs: false, ..signer(key(5)) }, pk::<BasicWardenAttesterMapAccount>(key(5), None, |_| {}), basic(2, named(key(5), None, 4)), sys()], I::RevokeMetadataAttester { warden_id: 2 }) }
fn attest() -> (Vec<A>, I) {
    (vec![signer(key(8)), basic(1, named(key(8), None, 4)), basic(2, named(key(1), None, 0)), network(3)],
        I::AttestBasicWardenMetadata { attester_warden_id: 1, warden_id: 2, member_index: 2, asn: Some(5), timezone: timezone(FILL[8], &FILL[9..12]), region: region(1), uses_proxy: false })
}
fn close() -> (Vec<A>, I) { (vec![signer(elusiv_warden_network::id()), plain(6), a(at::<ApaProposalsAccount>((key(7), 0))), sys()], I::CloseProgramAccount) }

fn replace(l: &[A], i: usize, x: Info) -> Vec<AccountInfo<'static>> { l.iter().enumerate().map(|(k, y)| if k == i { x.clone() } else { y.i.clone() }).collect() }
/// One flaw in a correct list of accounts, or none
fn list(case: fn() -> (Vec<A>, I), effect: fn(&[A]) -> bool) -> bool {
    let (pos, kind, which): (u8, u8, u8) = (any(), any(), any());
    let delta: [u8; 4] = any();
    let owner: [u8; 4] = any();
    init();
    let (l, ix) = case();
    let data = ix.try_to_vec().unwrap();
    assume(kind < 7 && (pos as usize) < l.len() && which < 2);
    let kind = pin(kind as u64);
    if kind == 0 || kind == 6 { assume(pos == 0 && which == 0); }
    if kind != 2 { assume(which == 0); }
    if kind != 1 { assume(delta == [0; 4]); }
    if kind != 4 { assume(owner == [0; 4]); }
    let i = pin(pos as u64) as usize;
    let which = pin(which as u64) as usize;
    let x = &l[i];
    let infos = match kind {
        0 | 6 => replace(&l, usize::MAX, x.i),
        1 => {
            // the same content under another key
            assume(x.fixed && delta != [0; 4]);
            let mut k = x.i.key.to_bytes();
            if x.derives { assume(delta == [1, 0, 0, 0]); k[0] ^= 1; } else { for i in 0..4 { k[9 * i] ^= delta[i]; } }
            replace(&l, i, copy(x.i, Pubkey::new_from_array(k), None))
        }
        2 => { assume(which < x.other.len()); replace(&l, i, x.other[which]) }
        3 => {
            assume(x.signs);
            let mut y = x.i.clone();
            y.is_signer = false;
            replace(&l, i, leak(y))
        }
        4 => {
            assume(x.owned && owner != [0; 4]);
            let mut k = elusiv_warden_network::id().to_bytes();
            for i in 0..4 { k[9 * i] ^= owner[i]; }
            let mut y = x.i.clone();
            y.owner = leak(Pubkey::new_from_array(k));
            replace(&l, i, leak(y))
        }
        _ => {
            assume(!x.optional);
            l[..i].iter().map(|y| y.i.clone()).collect()
        }
    };
    // the same account twice
    let same = |k: usize| l.iter().enumerate().filter(|(n, y)| *n != k && y.i.key == l[k].i.key).count() > 0;
    if (kind == 1 || kind == 2) && x.i.data_len() > 0 { assume(!same(i) || x.fixed); }
    let infos: &'static [AccountInfo<'static>] = Box::leak(infos.into_boxed_slice());
    let n = data.len();
    let r = elusiv_warden_network::process_instruction(leak(elusiv_warden_network::id()), infos, if kind == 6 { &data[..n - 1] } else { &data[..] });
    match kind {
        0 => { prop!(r.is_ok(), "an instruction with its own accounts is processed"); prop!(effect(&l), "and works on the right ones"); return true; }
        1 => prop!(r.is_err(), "an account at another address is refused"),
        2 => prop!(r.is_err(), "an account of the same kind, for another purpose, is refused"),
        3 => prop!(r.is_err(), "a missing signature is refused"),
        4 => prop!(r.is_err(), "an account of another program is refused"),
        5 => prop!(r.is_err(), "missing accounts are refused"),
        _ => prop!(r.is_err() || n == 1, "incomplete data is refused"),
    }
    false
}
const MUCH: u64 = 1 << 40;
fn opened(x: &A) -> bool { *x.i.owner == elusiv_warden_network::id() && x.i.data_len() > 0 && x.i.lamports() == rent(x.i.data_len()) }
fn end(x: &A, n: usize) -> Vec<u8> { let d = x.i.data.borrow(); d[d.len() - n..].to_vec() }
fn effect_start(l: &[A]) -> bool { (1..5).all(|i| opened(&l[i])) }
fn effect_register(l: &[A]) -> bool { opened(&l[1]) && opened(&l[2]) && end(&l[3], 4) == [3, 0, 0, 0] }
fn effect_state(l: &[A]) -> bool { end(&l[1], 17)[0] == 1 }
fn effect_lut(l: &[A]) -> bool { let mut w = named(key(1), None, 0); w.lut = key(4); stored(&l[1].i.data.borrow()) == &enc(&w)[..] }
fn effect_apply(l: &[A]) -> bool { opened(&l[2]) && end(&l[2], 8) == [9, 0, 0, 0, 2, 0, 0, 0] }
fn effect_complete(l: &[A]) -> bool { let mut d = l[2].i.data.borrow_mut(); let n = ApaWardenNetworkAccount::new(&mut d).unwrap(); n.get_all_quotes().len() == 2 }
fn effect_confirm(l: &[A]) -> bool { end(&l[2], 6) == [0, 1, 0, 0, 0, 0] }
fn effect_operator(l: &[A]) -> bool { opened(&l[1]) }
fn effect_confirmed(l: &[A]) -> bool { let mut w = named(key(1), Some(key(5)), 0); w.is_operator_confirmed = true; stored(&l[1].i.data.borrow()) == &enc(&w)[..] }
fn effect_stats(l: &[A]) -> bool { opened(&l[2]) && end(&l[2], 3 * 367 * 4 + 10)[..2] == 2023u16.to_le_bytes() }
fn effect_track(l: &[A]) -> bool { end(&l[1], 2 * 367 * 4 + 4)[..4] == [1, 0, 0, 0] }
fn effect_propose(l: &[A]) -> bool { opened(&l[1]) && opened(&l[3]) && end(&l[2], 4) == [7, 0, 0, 0] }
fn effect_add(l: &[A]) -> bool { opened(&l[1]) && stored(&l[2].i.data.borrow()) == &enc(&named(key(5), None, 4))[..] }
fn effect_revoke(l: &[A]) -> bool { l[2].i.lamports() == 0 && stored(&l[3].i.data.borrow()) == &enc(&named(key(5), None, 0))[..] }
fn effect_attest(l: &[A]) -> bool { end(&l[3], 512)[2] == 1 && end(&l[3], 512)[1] == 0 && stored(&l[1].i.data.borrow()) == &enc(&named(key(8), None, 4))[..] }
fn effect_close(l: &[A]) -> bool { l[2].i.lamports() == 0 && l[1].i.lamports() == 5 + rent(<ApaProposalsAccount as SizedAccount>::SIZE) }
#[no_mangle]
pub extern "C" fn c36_start() { if list(start, effect_start) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_register() { if list(register, effect_register) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_state() { if list(state, effect_state) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_lut() { if list(lut, effect_lut) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_start_apa() { if list(start_apa, effect_apply) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_complete_apa() { if list(complete_apa, effect_complete) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_confirm_apa() { if list(confirm_apa, effect_confirm) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_operator() { if list(operator, effect_operator) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_confirm_operator() { if list(confirm_operator, effect_confirmed) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_open_stats() { if list(open_stats, effect_stats) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_track() { if list(track, effect_track) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_propose() { if list(propose, effect_propose) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_add() { if list(add, effect_add) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_revoke() { if list(revoke, effect_revoke) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_attest() { if list(attest, effect_attest) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c36_close() { if list(close, effect_close) { reach!("processed"); } }

/// Data that is no instruction
#[no_mangle]
pub extern "C" fn c36_data() {
    let d: [u8; 8] = any();
    let n: u8 = any();
    init();
    assume(n < 9);
    let n = pin(n as u64) as usize;
    assume(n == 0 || d[0] > 16);
    let r = elusiv_warden_network::process_instruction(leak(elusiv_warden_network::id()), &[], &d[..n]);
    prop!(r.is_err(), "unknown instructions are refused");
    reach!("refused");
}
