//! Proposals to the analysing wardens.
use crate::env::*;
use crate::env::init;
use crate::sym::*;
use crate::wardens::*;
use crate::{prop, reach};
use elusiv_types::accounts::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv_types::bytes::ElusivOption;
use elusiv_types::tokens::{elusiv_token, SPL_TOKEN_COUNT};
use elusiv_warden_network::apa::*;
use elusiv_warden_network::processor::*;
use solana_program::pubkey::Pubkey;

fn mint(k: Pubkey, authority: Option<Pubkey>, initialized: bool, owner: Pubkey) -> Info {
    let d = bytes(82);
    d[45] = initialized as u8;
    if let Some(a) = authority { d[46] = 1; d[50..82].copy_from_slice(a.as_ref()); }
    acc(k).owner(owner).lamports(rent(82)).data(d)
}

#[no_mangle]
pub extern "C" fn c35_propose() {
    let (freezing, constraint, the_mint, authority, level): (bool, u8, u8, u8, u8) = (any_bool(), any(), any(), any(), any());
    let (id, count, mapped): (u8, u8, bool) = (any(), any(), any_bool());
    let (fill, ts, time): ([u8; 16], u64, i64) = (any(), any(), any());
    let (target, claimed): ([u8; 1], [u8; 32]) = (any(), any());
    init();
    assume(constraint < 5 && the_mint < 3 && authority < 3 && level < 3 && id < 3 && count < 3 && time >= 0 && target[0] < 2);
    set_clock(time);
    let freezing = pin(freezing as u64) == 1;
    let constraint = [None, Some(0), Some(1), Some(SPL_TOKEN_COUNT as u16), Some(SPL_TOKEN_COUNT as u16 + 1)][pin(constraint as u64) as usize];
    let k = match pin(the_mint as u64) {
        0 => match constraint { Some(t) if t as usize <= SPL_TOKEN_COUNT => elusiv_token(t).unwrap().mint, _ => key(44) },
        1 => elusiv_token(1).unwrap().mint,
        _ => key(44),
    };
    let authority = pin(authority as u64);
    let m = mint(k, match authority { 0 => Some(key(1)), 1 => Some(key(2)), _ => None }, true, spl_token::ID);
    let id = [0u32, 6, u32::MAX][pin(id as u64) as usize];
    let count = [0u32, 6, u32::MAX][pin(count as u64) as usize];
    let pd = bytes(<ApaProposalsAccount as SizedAccount>::SIZE);
    let pv: &'static [u8] = unsafe { std::slice::from_raw_parts(pd.as_ptr(), pd.len()) };
    let n = pd.len();
    pd[n - 4..].copy_from_slice(&count.to_le_bytes());
    let mut proposals = ApaProposalsAccount::new(pd).unwrap();
    let target = key(60 + pin(target[0] as u64) as u8);
    let (pk, tk) = (ApaProposalAccount::find(Some(id)), ApaTargetMapAccount::find_with_pubkey(target, None));
    let size = <ApaProposalAccount as SizedAccount>::SIZE;
    let a = wallet(pk.0, 0).empty();
    let ts_size = <ApaTargetMapAccount as SizedAccount>::SIZE;
    let map = if pin(mapped as u64) == 1 { let d = bytes(ts_size); d[0] = tk.1; d[2] = 1; d[3] = 9; acc(tk.0).lamports(rent(ts_size)).data(d) } else { wallet(tk.0, 0).empty() };
    let lvl = |n: u64| match n { 0 => ApaLevel::Flag1, 1 => ApaLevel::Flag2, _ => ApaLevel::Outcast };
    let l = pin(level as u64);
    let make = |proponent: Pubkey, timestamp: u64| ApaProposal {
        proponent, timestamp, target, level: lvl(l),
        proponent_role: if freezing { ApaProponentRole::TokenFreezingAuthority } else { ApaProponentRole::Default },
        token_constraint: constraint.into(),
        reason: string::<512>(&fill),
    };
    let ok = propose_apa_proposal(wallet(key(1), 1 << 40).signer(true).empty(), unverified(a), &mut proposals, map, m, id, make(Pubkey::new_from_array(claimed), ts)).is_ok();
    let known = constraint.map_or(true, |t| t as usize <= SPL_TOKEN_COUNT);
    let may = !freezing || constraint.map_or(false, |t| t > 0 && known && k == elusiv_token(t).unwrap().mint && authority == 0);
    prop!(!ok || may, "only the authority that can freeze a token proposes as such, and for this token");
    prop!(ok == (may && known && id == count && count < u32::MAX), "a proposal has the next number");
    if ok {
        let want = enc(&make(key(1), time as u64));
        let d = a.data.borrow();
        prop!(*a.owner == elusiv_warden_network::id() && d.len() == size && d[0] == pk.1 && d[size - want.len()..] == want[..], "what is stored is the proposal, its real proponent and time");
        prop!(pv[n - 4..] == (count + 1).to_le_bytes(), "it is counted");
        prop!(*map.owner == elusiv_warden_network::id() && map.data_len() == ts_size && map.data.borrow()[0] == tk.1, "the target has an account");
        prop!(!mapped || map.data.borrow()[2] == 1 && map.data.borrow()[3] == 9, "which is opened only once");
        if freezing { reach!("by an authority"); } else { reach!("proposed"); }
    }
}
