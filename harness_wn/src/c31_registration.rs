//! Registration of wardens and operators, and what a warden states about itself.
use crate::env::*;
use crate::env::init;
use crate::sym::*;
use crate::wardens::*;
use crate::{prop, reach};
use elusiv_types::accounts::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv_types::bytes::ElusivOption;
use elusiv_warden_network::network::BasicWardenNetworkAccount;
use elusiv_warden_network::operator::WardenOperatorAccount;
use elusiv_warden_network::processor::*;
use elusiv_warden_network::warden::*;

/// A warden registers: with the next number, under its own key, once
#[no_mangle]
pub extern "C" fn c31_register() {
    let (which, count, mine, next, taken): (u8, u8, bool, u8, u8) = (any(), any(), any_bool(), any(), any());
    let fill: [u8; 16] = any();
    let (r, flags): (u8, u16) = (any(), any());
    let time: i64 = any();
    init();
    assume(which < 4 && count < 5 && next < 3 && taken < 3 && r < 7 && time >= 0);
    set_clock(time);
    let id = [0u32, 3, 512, u32::MAX][pin(which as u64) as usize];
    let count = [0usize, 1, 300, 511, 512][pin(count as u64) as usize];
    let next = match pin(next as u64) { 0 => id, 1 => id.wrapping_add(1), _ => id.wrapping_sub(1) };
    let taken = pin(taken as u64);
    let r = pin(r as u64) as u8;
    let mine = pin(mine as u64) == 1;
    let k = key(1);
    let me = wallet(k, 1 << 40).signer(true).empty();
    let named = if mine { k } else { key(2) };
    let c = config(named, Some(key(3)), &fill, r, flags);
    let want = enc(&c);
    let (feat, toks) = (enc(&c.basic_warden_features), enc(&c.tokens));
    let mut wardens = WardensAccount::new(bytes(<WardensAccount as SizedAccount>::SIZE)).unwrap();
    wardens.set_next_warden_id(&next);
    let nd = bytes(<BasicWardenNetworkAccount as SizedAccount>::SIZE);
    let head = nd.len() - 512 * (4 + 3 + elusiv_types::TOKENS.len() + 1) - 4;
    nd[head..head + 4].copy_from_slice(&(count as u32).to_le_bytes());
    let nv: &'static [u8] = unsafe { std::slice::from_raw_parts(nd.as_ptr(), nd.len()) };
    let before = nv.to_vec();
    let mut network = BasicWardenNetworkAccount::new(nd).unwrap();
    let (wk, mk) = (BasicWardenAccount::find(Some(id)), BasicWardenMapAccount::find_with_pubkey(k, None));
    let wsize = <BasicWardenAccount as SizedAccount>::SIZE;
    let w = if taken == 1 { acc(wk.0).lamports(rent(wsize)).data(bytes(wsize)) } else { wallet(wk.0, 0).empty() };
    let msize = <BasicWardenMapAccount as SizedAccount>::SIZE;
    let m = if taken == 2 { acc(mk.0).lamports(rent(msize)).data(bytes(msize)) } else { wallet(mk.0, 0).empty() };
    let ok = register_basic_warden(me, unverified(w), unverified(m), &mut wardens, &mut network, id, c).is_ok();
    prop!(ok == (mine && next == id && count < 512 && taken == 0 && id < u32::MAX), "a warden registers under its own key, once, with the next number, while there is room");
    if ok {
        prop!(wardens.get_next_warden_id() == id + 1, "the number is given to no one else");
        let d = w.data.borrow();
        prop!(*w.owner == elusiv_warden_network::id() && d.len() == wsize && d[0] == wk.1, "the warden's account is the program's");
        let s = stored(&d);
        let n = want.len();
        prop!(s[..n] == want[..], "the account of the warden holds what it stated");
        let t = (time as u64).to_le_bytes();
        prop!(s[n..n + 32] == [0; 32] && s[n + 32] == 0 && s[n + 37..n + 41] == [0; 4], "no lookup table, not confirmed, not attested and not active");
        prop!(s[n + 41 - 1] == 0 && s[s.len() - 16..s.len() - 8] == t && s[s.len() - 8..] == t, "joined now");
        let md = m.data.borrow();
        prop!(*m.owner == elusiv_warden_network::id() && md[msize - 4..] == id.to_le_bytes(), "the key is mapped to the number");
        let a = head + 4;
        let mut e = before.clone();
        e[head..a].copy_from_slice(&(count as u32 + 1).to_le_bytes());
        e[a + 4 * count..a + 4 * count + 4].copy_from_slice(&id.to_le_bytes());
        let a = a + 4 * 512;
        e[a + 3 * count..a + 3 * count + 3].copy_from_slice(&feat);
        let a = a + 3 * 512;
        let n = elusiv_types::TOKENS.len();
        e[a + n * count..a + n * count + n].copy_from_slice(&toks);
        let a = a + n * 512;
        e[a + count] = r;
        prop!(nv[..] == e[..], "one member is added to the network, with its features, tokens and region");
        if id == 3 { reach!("registered"); }
    }
}

/// Who changes the state of a warden, and what changes
fn own(f: impl Fn(Info, &mut BasicWardenAccount, u32) -> bool) -> (bool, bool, Vec<u8>, &'static [u8]) {
    let mine = any_bool();
    let fill: [u8; 16] = any();
    let (active, t0, t1): (bool, u64, u64) = (any_bool(), any(), any());
    let id: u32 = any();
    let mut w = warden(config(key(1), None, &fill, 3, 0b1010_1010_1010_1010));
    w.is_active = pin(active as u64) == 1;
    w.join_timestamp = t0;
    w.activation_timestamp = t1;
    let (mut a, v) = view(warden_data(&w));
    let before = v.to_vec();
    let ok = f(wallet(key(if pin(mine as u64) == 1 { 1 } else { 2 }), 5).signer(true).empty(), &mut a, id);
    (ok, mine, before, v)
}
#[no_mangle]
pub extern "C" fn c31_state() {
    let active = any_bool();
    let time: i64 = any();
    init();
    assume(time >= 0);
    set_clock(time);
    let active = pin(active as u64) == 1;
    let (ok, mine, mut want, v) = own(|s, a, id| update_basic_warden_state(s, a, id, active).is_ok());
    prop!(ok == mine, "only the warden itself changes whether it is active");
    let n = want.len();
    let flag = n - 17;
    if ok {
        if (want[flag] == 1) != active { want[n - 8..].copy_from_slice(&(time as u64).to_le_bytes()); }
        want[flag] = active as u8;
    }
    prop!(v[..] == want[..], "and nothing but this and the time of a change");
    if ok && active { reach!("activated"); }
}
#[no_mangle]
pub extern "C" fn c31_lut() {
    let k: [u8; 32] = any();
    init();
    let l = acc(solana_program::pubkey::Pubkey::new_from_array(k)).empty();
    let (ok, mine, mut want, v) = own(|s, a, id| update_basic_warden_lut(s, a, l, id).is_ok());
    prop!(ok == mine, "only the warden itself changes its lookup table");
    let n = want.len();
    let at = n - 17 - 2 - 1 - 5 - 32;
    prop!(want[at..at + 32] == key(99).to_bytes(), "layout");
    if ok { want[at..at + 32].copy_from_slice(&k); }
    prop!(v[..] == want[..], "and nothing but this");
    if ok { reach!("lookup table"); }
}

/// Confirmation of the operator
#[no_mangle]
pub extern "C" fn c31_confirm() {
    let (named, mine): (u8, bool) = (any(), any_bool());
    let fill: [u8; 16] = any();
    let k: [u8; 32] = any();
    let id: u32 = any();
    init();
    assume(named < 2);
    let op = solana_program::pubkey::Pubkey::new_from_array(k);
    let some = pin(named as u64) == 1;
    let mut w = warden(config(key(1), if some { Some(op) } else { None }, &fill, 3, 0b0101_0101_0101_0101));
    let (mut a, v) = view(warden_data(&w));
    let before = v.to_vec();
    let signer = if pin(mine as u64) == 1 { op } else { key(2) };
    assume(mine || signer != op);
    let ok = confirm_basic_warden_operation(wallet(signer, 5).signer(true).empty(), &mut a, id).is_ok();
    prop!(ok == (!some || mine), "only the operator a warden names confirms it");
    if ok {
        w.config.operator = ElusivOption::Some(signer);
        w.is_operator_confirmed = true;
        prop!(stored(v) == &enc(&w)[..], "it is confirmed, by this operator, and nothing else changes");
        if some { reach!("confirmed"); } else { reach!("adopted"); }
    } else { prop!(v[..] == before[..], "a refused confirmation changes nothing"); }
}
/// An operator registers under its own key, once
#[no_mangle]
pub extern "C" fn c31_operator() {
    let (taken, some): (bool, bool) = (any_bool(), any_bool());
    let other = any_bool();
    let fill: [u8; 16] = any();
    let j: u16 = any();
    init();
    let k = WardenOperatorAccount::find_with_pubkey(key(if pin(other as u64) == 1 { 2 } else { 1 }), None);
    let n = <WardenOperatorAccount as SizedAccount>::SIZE;
    let a = if pin(taken as u64) == 1 { acc(k.0).lamports(rent(n)).data(bytes(n)) } else { wallet(k.0, 0).empty() };
    let jur = if pin(some as u64) == 1 { Some(j) } else { None };
    let (ident, url) = (string::<256>(&fill[..7]), string::<256>(&fill[7..]));
    let mut want = vec![k.1, 0];
    want.extend_from_slice(key(1).as_ref());
    want.extend(enc(&ident));
    want.extend(enc(&url));
    want.extend(enc(&ElusivOption::from(jur)));
    let ok = register_warden_operator(wallet(key(1), 1 << 40).signer(true).empty(), unverified(a), ident, url, jur).is_ok();
    prop!(ok == (!taken && !other), "an operator registers once, in its own account");
    if ok {
        let d = a.data.borrow();
        prop!(*a.owner == elusiv_warden_network::id() && d.len() == n && want.len() <= n, "the account is the program's");
        let off = n - want.len();
        prop!(off == 0 && d[34..] == want[34..], "it holds what the operator stated");
        prop!(d[2..34] == want[2..34], "and the operator's key");
        reach!("registered");
    }
}
