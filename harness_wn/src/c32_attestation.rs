//! Attestation of the metadata of wardens.
use crate::env::*;
use crate::env::init;
use crate::sym::*;
use crate::wardens::*;
use crate::{prop, reach};
use elusiv_types::accounts::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv_types::bytes::ElusivOption;
use elusiv_types::TOKENS;
use elusiv_warden_network::network::BasicWardenNetworkAccount;
use elusiv_warden_network::processor::*;
use elusiv_warden_network::warden::*;

fn authority(real: bool) -> Info { wallet(if real { METADATA_ATTESTER_AUTHORITY } else { key(1) }, 1 << 40).signer(true).empty() }

/// Only the authority makes a warden an attester
#[no_mangle]
pub extern "C" fn c32_add() {
    let (real, place, before, other): (bool, u8, bool, bool) = (any_bool(), any(), any_bool(), any_bool());
    let fill: [u8; 16] = any();
    let id: u32 = any();
    init();
    assume(place < 3);
    let mut w = warden(config(key(1), None, &fill, 2, if pin(before as u64) == 1 { 0b1110 } else { 0b1010 }));
    let (mut a, v) = view(warden_data(&w));
    let old = v.to_vec();
    let k = BasicWardenAttesterMapAccount::find_with_pubkey(key(if pin(other as u64) == 1 { 6 } else { 5 }), None);
    let n = <BasicWardenAttesterMapAccount as SizedAccount>::SIZE;
    let place = pin(place as u64);
    let m = match place { 1 => acc(k.0).lamports(rent(n)).data(bytes(n)), _ => wallet(k.0, 0).empty() };
    let ok = add_metadata_attester(authority(pin(real as u64) == 1), unverified(m), &mut a, id, key(5)).is_ok();
    prop!(ok == (real && place != 1 && !other), "only the authority makes someone an attester, in the attester's own account, once");
    if ok {
        w.config.warden_features.attestation = true;
        prop!(stored(v) == &enc(&w)[..], "the warden is an attester, and nothing else changes");
        let d = m.data.borrow();
        prop!(*m.owner == elusiv_warden_network::id() && d.len() == n && d[0] == k.1 && d[n - 4..] == id.to_le_bytes(), "the attester is mapped to the warden");
        reach!("added");
    } else { prop!(place == 1 || other || v[..] == old[..], "a stranger changes nothing"); }
}
/// Only the authority revokes it
#[no_mangle]
pub extern "C" fn c32_revoke() {
    let (real, before): (bool, bool) = (any_bool(), any_bool());
    let fill: [u8; 16] = any();
    let id: u32 = any();
    let lamports: u64 = any();
    init();
    assume(lamports < 1 << 60);
    let mut w = warden(config(key(1), None, &fill, 2, if pin(before as u64) == 1 { 0b1110 } else { 0b1010 }));
    let (mut a, v) = view(warden_data(&w));
    let old = v.to_vec();
    let n = <BasicWardenAttesterMapAccount as SizedAccount>::SIZE;
    let m = acc(key(7)).lamports(lamports).data(bytes(n));
    let s = authority(pin(real as u64) == 1);
    let ok = revoke_metadata_attester(s, acc(key(5)).empty(), m, &mut a, id).is_ok();
    prop!(ok == real, "only the authority revokes an attester");
    if ok {
        w.config.warden_features.attestation = false;
        prop!(stored(v) == &enc(&w)[..], "the warden is no attester, and nothing else changes");
        prop!(m.lamports() == 0 && s.lamports() == (1 << 40) + lamports, "the account is closed and the authority gets its lamports");
        reach!("revoked");
    } else { prop!(v[..] == old[..] && m.lamports() == lamports, "a stranger changes nothing"); }
}

/// An attestation is made by an attester, for a member of the network, and is kept
#[no_mangle]
pub extern "C" fn c32_attest() {
    let (mine, attester, place, same_region, same_proxy, same_zone): (bool, bool, u8, bool, bool, u8) = (any_bool(), any_bool(), any(), any_bool(), any_bool(), any());
    let fill: [u8; 16] = any();
    let loc: [u8; 3] = any();
    let area: u8 = any();
    let asn: u32 = any();
    let has_asn = any_bool();
    let (id, member): (u32, u32) = (any(), any());
    let was: u8 = any();
    let aid: u32 = any();
    init();
    assume(place < 4 && same_zone < 2 && was < 3);
    let aw = warden(config(key(8), None, &fill, 1, if pin(attester as u64) == 1 { 0b0100 } else { 0b1011 }));
    let aa = BasicWardenAccount::new(warden_data(&aw)).unwrap();
    let mut w = warden(config(key(1), None, &fill, 2, 0b1010));
    w.is_metadata_valid = match pin(was as u64) { 0 => ElusivOption::None, 1 => ElusivOption::Some(false), _ => ElusivOption::Some(true) };
    let (mut a, v) = view(warden_data(&w));
    let nd = bytes(<BasicWardenNetworkAccount as SizedAccount>::SIZE);
    let nv: &'static [u8] = unsafe { std::slice::from_raw_parts(nd.as_ptr(), nd.len()) };
    let head = nd.len() - 512 * (4 + 3 + TOKENS.len() + 1) - 4;
    let i = [0usize, 3, 511, 512][pin(place as u64) as usize];
    if i < 512 { nd[head + 4 + 4 * i..head + 8 + 4 * i].copy_from_slice(&member.to_le_bytes()); }
    let before = nv.to_vec();
    let mut network = BasicWardenNetworkAccount::new(nd).unwrap();
    let r = if pin(same_region as u64) == 1 { 2 } else { 5 };
    let proxy = pin(same_proxy as u64) == 0;
    let zone = if pin(same_zone as u64) == 1 { timezone(fill[8], &fill[9..12]) } else { timezone(area, &loc) };
    let zone_is = enc(&zone) == enc(&w.config.timezone);
    let asn = if pin(has_asn as u64) == 1 { Some(asn) } else { None };
    let old = v.to_vec();
    let s = wallet(key(if pin(mine as u64) == 1 { 8 } else { 9 }), 5).signer(true).empty();
    let z = enc(&zone);
    let ok = attest_basic_warden_metadata(s, &aa, &mut a, &mut network, aid, id, i as u32, asn, zone, region(r), proxy).is_ok();
    prop!(ok == (mine && attester && i < 512 && member == id), "a warden that is an attester attests the metadata of a member of the network");
    if ok {
        let valid = zone_is && !proxy && r == 2;
        let mut e = before.clone();
        e[head + 4 + 512 * (4 + 3 + TOKENS.len()) + i] = r;
        prop!(nv[..] == e[..], "the region of this member is what was attested");
        w.asn = asn.into();
        w.config.timezone = borsh::BorshDeserialize::deserialize(&mut &z[..]).unwrap();
        w.config.uses_proxy = proxy;
        w.config.region = region(r);
        w.is_metadata_valid = ElusivOption::Some(valid);
        prop!(stored(v) == &enc(&w)[..], "the warden's account holds the attested metadata and whether the warden had stated it correctly");
        if valid { reach!("valid"); } else { reach!("corrected"); }
    } else if !(mine && attester) { prop!(v[..] == old[..] && nv[..] == before[..], "a stranger changes nothing"); }
}
