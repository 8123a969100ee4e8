//! Verification keys: who can change them, and how.
use crate::env::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::processor::*;
use elusiv::proof::vkey::VerifyingKey;
use elusiv::state::vkey::VKeyAccount;
use elusiv_types::accounts::{PDAAccount, ParentAccount, ProgramAccount, SizedAccount};
use elusiv_types::bytes::ElusivOption;
use solana_program::pubkey::Pubkey;

type V = VKeyAccount<'static, 'static, 'static>;
const INPUTS: u32 = 2;
fn size() -> usize { VerifyingKey::source_size(INPUTS as usize) + 1 }
fn data(n: u8) -> Info { let d = bytes(size()); d[0] = 1; d[5] = n; acc(key(n)).lamports(rent(size())).data(d) }

struct S { v: V, active: Option<Info>, next: Option<Info>, version: u32, frozen: bool, authority: u64 }
/// Any state: with and without an active and a next version, frozen or not, and an authority (0: none)
fn state(active: bool, next: bool, frozen: bool, authority: u8, version: u32) -> S {
    let mut c = vec![None; 2];
    let a = if pin(active as u64) == 1 { Some(data(30)) } else { None };
    let n = if pin(next as u64) == 1 { Some(data(31)) } else { None };
    if let Some(a) = a { c[0] = Some(a); }
    if let Some(n) = n { c[1] = Some(n); }
    let mut v = VKeyAccount::new_with_child_accounts(bytes(<VKeyAccount as SizedAccount>::SIZE), c).unwrap();
    if let Some(a) = a { v.set_child_pubkey(0, ElusivOption::Some(*a.key)); }
    if let Some(n) = n { v.set_child_pubkey(1, ElusivOption::Some(*n.key)); }
    v.set_public_inputs_count(&INPUTS);
    v.set_version(&version);
    v.set_is_frozen(&frozen);
    let authority = pin(authority as u64);
    if authority > 0 { v.set_authority(&ElusivOption::Some(key(authority as u8))); }
    S { v, active: a, next: n, version, frozen, authority }
}
/// The signer: 1 and 2 are the possible authorities
fn signer(who: u8, signs: bool) -> Info { wallet(key(pin(who as u64) as u8), 5).signer(pin(signs as u64) == 1).empty() }
fn allowed(s: &S, who: Info) -> bool { !s.frozen && (s.authority == 0 || (who.is_signer && *who.key == key(s.authority as u8))) }
fn kept(s: &S) -> bool {
    s.v.get_child_pubkey(0) == s.active.map(|a| *a.key) && s.v.get_child_pubkey(1) == s.next.map(|a| *a.key) && s.v.get_version() == s.version && s.v.get_public_inputs_count() == INPUTS
}
fn authority_of(s: &S) -> Option<Pubkey> { s.v.get_authority().option() }
fn key_of(n: u64) -> Option<Pubkey> { if n == 0 { None } else { Some(key(n as u8)) } }
fn untouched(i: Option<Info>, n: u8) -> bool {
    match i { None => true, Some(i) => { let d = i.data.borrow(); d[0] == 1 && d[5] == n && d[6..] == bytes(size() - 6)[..] && i.lamports() == rent(size()) } }
}

macro_rules! any_state { ($s:ident, $who:ident) => {
    let (active, next, frozen, signs): (bool, bool, bool, bool) = (any_bool(), any_bool(), any_bool(), any_bool());
    let (authority, w): (u8, u8) = (any(), any());
    let version: u32 = any();
    init();
    assume(authority < 3 && w > 0 && w < 4);
    #[allow(unused_mut)]
    let mut $s = state(active, next, frozen, authority, version);
    let $who = signer(w, signs);
} }

/// Registering the data account of the next version
#[no_mangle]
pub extern "C" fn c24_new_version() {
    let (len, used, owner, poor): (u8, u8, bool, bool) = (any(), any(), any_bool(), any_bool());
    any_state!(s, who);
    assume(len < 3);
    let n = size() + pin(len as u64) as usize - 1;
    let d = bytes(n);
    d[0] = used;
    let a = acc(key(40)).owner(if pin(owner as u64) == 1 { elusiv::id() } else { key(9) }).lamports(rent(n) - poor as u64).data(d);
    let r = create_new_vkey_version(who, &mut s.v, a, 0);
    let ok = allowed(&s, who) && s.next.is_none() && len == 1 && used == 0 && owner && !poor;
    prop!(r.is_ok() == ok, "a next version is registered by the authority, in an unused account of the program of the right size");
    if r.is_ok() {
        prop!(s.v.get_child_pubkey(1) == Some(*a.key) && a.data.borrow()[0] == 1, "it is the next version, and in use");
        prop!(s.v.get_child_pubkey(0) == s.active.map(|a| *a.key) && s.v.get_version() == s.version && s.v.get_public_inputs_count() == INPUTS && authority_of(&s) == key_of(s.authority), "nothing else changes");
        reach!("registered");
    }
    prop!(untouched(s.active, 30) && untouched(s.next, 31), "the data of other versions is not touched");
}

/// Writing the data of the next version
#[no_mangle]
pub extern "C" fn c24_data() {
    let (active, frozen, signs): (bool, bool, bool) = (any_bool(), any_bool(), any_bool());
    let next = any_bool();
    let (authority, w): (u8, u8) = (any(), any());
    let position: u32 = any();
    let value: [u8; 4] = any();
    init();
    assume(authority < 2 && w > 0 && w < 3);
    let n = size() - 1;
    let packets = (n + VKEY_ACCOUNT_DATA_PACKET_SIZE - 1) / VKEY_ACCOUNT_DATA_PACKET_SIZE;
    let inside = (position as usize) < packets;
    assume(!inside || position < 2 || position as usize + 2 >= packets);
    let position = if inside { pin(position as u64) as u32 } else { position };
    let s = state(active, next, frozen, authority, 1);
    let who = signer(w, signs);
    let mut p = vec![9u8; VKEY_ACCOUNT_DATA_PACKET_SIZE];
    p[..4].copy_from_slice(&value);
    let mut v = s.v;
    let r = set_vkey_data(who, &mut v, 0, position, VKeyAccountDataPacket(p.clone()));
    let s = S { v, ..s };
    let ok = allowed(&s, who) && s.next.is_some() && inside;
    prop!(r.is_ok() == ok, "the authority writes the data of the next version, at every place of it");
    if r.is_ok() {
        let b = s.next.unwrap().data.borrow();
        let at = position as usize * VKEY_ACCOUNT_DATA_PACKET_SIZE;
        let end = if at + VKEY_ACCOUNT_DATA_PACKET_SIZE < n { at + VKEY_ACCOUNT_DATA_PACKET_SIZE } else { n };
        prop!(b[1 + at..1 + end] == p[..end - at], "the data is written");
        prop!(b[0] == 1, "it is still in use");
        let old = bytes(n);
        old[4] = 31;
        prop!(b[1..1 + at] == old[..at] && b[1 + end..] == old[end..], "only there");
        reach!("written");
    } else { prop!(untouched(s.next, 31), "or nothing"); }
    prop!(untouched(s.active, 30), "the active version is never touched");
    prop!(kept(&s) && authority_of(&s) == key_of(s.authority), "nothing else changes");
}

/// Activating the next version
#[no_mangle]
pub extern "C" fn c24_update() {
    let which: u8 = any();
    any_state!(s, who);
    assume(which < 3);
    let old = match pin(which as u64) { 0 => s.active.unwrap_or(data(30)), 1 => s.next.unwrap_or(data(31)), _ => data(32) };
    let system = acc(solana_program::system_program::ID).owner(key(71)).writable(false).empty();
    let all = [who, old];
    let before = total(&all);
    let r = update_vkey_version(who, &mut s.v, old, system, 0);
    let ok = allowed(&s, who) && s.next.is_some() && (s.active.is_none() || which == 0) && s.version < u32::MAX;
    prop!(r.is_ok() || !ok, "the authority can activate a next version");
    prop!(r.is_err() || ok, "only the authority, only if there is one");
    if r.is_ok() {
        prop!(s.v.get_child_pubkey(0) == s.next.map(|a| *a.key) && s.v.get_child_pubkey(1).is_none(), "the next version is the active one");
        prop!(s.v.get_version() == s.version + 1 && s.v.is_setup(), "the version is counted");
        prop!(authority_of(&s) == key_of(s.authority) && !s.v.get_is_frozen() && s.v.get_public_inputs_count() == INPUTS, "nothing else changes");
        prop!(total(&all) == before, "no lamports are lost");
        if s.active.is_some() { prop!(old.lamports() == 0, "the replaced account is closed"); reach!("replaced"); } else { prop!(old.lamports() == rent(size()), "no other account is closed"); reach!("first"); }
    }
}

/// Freezing, and changing the authority
#[no_mangle]
pub extern "C" fn c24_authority() {
    let freeze = any_bool();
    let to: [u8; 32] = any();
    any_state!(s, who);
    let freeze = pin(freeze as u64) == 1;
    let to = Pubkey::new_from_array(to);
    let r = if freeze { freeze_vkey(who, &mut s.v, 0) } else { change_vkey_authority(who, &mut s.v, 0, to) };
    prop!(r.is_ok() == allowed(&s, who), "the authority freezes the key or names another authority");
    let done = r.is_ok();
    prop!(s.v.get_is_frozen() == (s.frozen || (done && freeze)), "a frozen key stays frozen");
    prop!(authority_of(&s) == if done && !freeze { Some(to) } else { key_of(s.authority) }, "only the authority passes it on");
    prop!(kept(&s) && untouched(s.active, 30) && untouched(s.next, 31), "the keys do not change");
    if done && freeze { reach!("frozen"); }
    if done && !freeze { reach!("changed"); }
}

/// A new verification key
#[no_mangle]
pub extern "C" fn c24_create() {
    let id: u32 = any();
    let inputs: u32 = any();
    let authority: [u8; 32] = any();
    let none = any_bool();
    let (wrong, signs): (u8, bool) = (any(), any_bool());
    init();
    assume(id < 3 && wrong < 3);
    let id = pin(id as u64) as u32;
    let n = <VKeyAccount as SizedAccount>::SIZE;
    let k = VKeyAccount::find(Some(id)).0;
    let payer = wallet(key(1), 1 << 40).signer(pin(signs as u64) == 1).empty();
    let a = match pin(wrong as u64) { 0 => wallet(k, 0).empty(), 1 => acc(k).lamports(rent(n)).data(bytes(n)), _ => wallet(VKeyAccount::find(Some(id + 1)).0, 0).empty() };
    let none = pin(none as u64) == 1;
    let r = create_vkey_account(payer, a, id, inputs, if none { ElusivOption::None } else { ElusivOption::Some(Pubkey::new_from_array(authority)) });
    prop!(r.is_ok() == (id == 0 && wrong == 0 && signs), "a key is created once, at its own address");
    if r.is_ok() {
        let mut b = a.data.borrow_mut();
        let v = VKeyAccount::new(&mut b).unwrap();
        prop!(v.get_authority().option() == if none { None } else { Some(Pubkey::new_from_array(authority)) } && v.get_public_inputs_count() == inputs, "as requested");
        prop!(!v.is_setup() && !v.get_is_frozen() && v.get_child_pubkey(0).is_none() && v.get_child_pubkey(1).is_none(), "without any version");
        reach!("created");
    }
}
