//! The genesis of the network of analysing wardens.
use crate::env::*;
use crate::env::init;
use crate::sym::*;
use crate::wardens::*;
use crate::{prop, reach};
use elusiv_types::accounts::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv_types::bytes::ElusivOption;
use elusiv_warden_network::network::ApaWardenNetworkAccount;
use elusiv_warden_network::processor::*;
use elusiv_warden_network::warden::*;
use solana_program::pubkey::Pubkey;

const H: usize = 558;
/// Places of the fields in the account
struct L { count: usize, members: usize, starts: usize, ends: usize, keys: usize, confirmations: usize, size: usize }
fn layout() -> L {
    let size = <ApaWardenNetworkAccount as SizedAccount>::SIZE;
    let confirmations = size - 6;
    let keys = confirmations - 6 * 32;
    let ends = keys - 6 * (H + 1);
    let starts = ends - 6 * H;
    let members = starts - 24;
    L { count: members - 33 - 4, members, starts, ends, keys, confirmations, size }
}
fn quote(n: u8) -> [u8; H] { let mut q = [n; H]; for i in 0..H { q[i] = n.wrapping_mul(31).wrapping_add(i as u8); } q }
/// A network with `count` members of the given numbers, of whom those of `ends` completed their application
fn network(count: usize, members: &[u32; 6], ends: u8) -> &'static mut [u8] {
    let l = layout();
    let d = bytes(l.size);
    d[l.count..l.count + 4].copy_from_slice(&(count as u32).to_le_bytes());
    for i in 0..count {
        d[l.members + 4 * i..l.members + 4 * i + 4].copy_from_slice(&members[i].to_le_bytes());
        let q = quote(i as u8);
        d[l.starts + H * i..l.starts + H * (i + 1)].copy_from_slice(&q);
        d[l.keys + 32 * i..l.keys + 32 * (i + 1)].copy_from_slice(&q[400..432]);
    }
    for i in 0..6 { if ends >> i & 1 == 1 { d[l.ends + (H + 1) * i] = 1; d[l.ends + (H + 1) * i + 1..l.ends + (H + 1) * (i + 1)].copy_from_slice(&quote(100 + i as u8)); } }
    d
}
fn see(d: &[u8]) -> &'static [u8] { unsafe { std::slice::from_raw_parts(d.as_ptr(), d.len()) } }

/// A warden applies
#[no_mangle]
pub extern "C" fn c34_start() {
    let (count, ends, id, claimed, taken): (u8, u8, u8, u8, bool) = (any(), any(), any(), any(), any_bool());
    let q: [u8; 64] = any();
    let o: [u32; 6] = any();
    init();
    assume(count < 7 && ends < 4 && id < 3 && claimed < 3);
    let count = pin(count as u64) as usize;
    // (those who completed are among the members)
    let ends = [0u8, (1u16 << count >> 1) as u8, ((1u16 << count) - 1) as u8 & 0x15, ((1u16 << count) - 1) as u8][pin(ends as u64) as usize];
    let id = [0u32, 9, u32::MAX][pin(id as u64) as usize];
    let claimed = [0u32, 9, u32::MAX][pin(claimed as u64) as usize];
    let md = bytes(<BasicWardenMapAccount as SizedAccount>::SIZE);
    let n = md.len();
    md[n - 4..].copy_from_slice(&id.to_le_bytes());
    let map = BasicWardenMapAccount::new(md).unwrap();
    let d = network(count, &o, ends);
    let v = see(d);
    let mut want = v.to_vec();
    let mut net = ApaWardenNetworkAccount::new(d).unwrap();
    // the account of the claimed number
    let k = ApaWardenAccount::find(Some(claimed));
    let size = <ApaWardenAccount as SizedAccount>::SIZE;
    let a = if pin(taken as u64) == 1 { acc(k.0).lamports(rent(size)).data(bytes(size)) } else { wallet(k.0, 0).empty() };
    let mut s = quote(77);
    s[390..454].copy_from_slice(&q);
    let ok = start_apa_genesis_warden_application(wallet(key(1), 1 << 40).signer(true).empty(), &map, unverified(a), &mut net, claimed, QuoteStart(s)).is_ok();
    let open = ends != 0x3f;
    prop!(ok == (open && count < 6 && claimed == id && !taken), "a warden applies once, under its own number, while applications are possible");
    if ok {
        let l = layout();
        want[l.count..l.count + 4].copy_from_slice(&(count as u32 + 1).to_le_bytes());
        want[l.members + 4 * count..l.members + 4 * count + 4].copy_from_slice(&id.to_le_bytes());
        want[l.starts + H * count..l.starts + H * (count + 1)].copy_from_slice(&s);
        want[l.keys + 32 * count..l.keys + 32 * (count + 1)].copy_from_slice(&s[400..432]);
        prop!(v[..] == want[..], "the applicant becomes the next member, with its quote and the key embedded in it");
        let ad = a.data.borrow();
        prop!(ad.len() == size && ad[size - 8..size - 4] == id.to_le_bytes() && ad[size - 4..] == (count as u32).to_le_bytes(), "its account holds its number and place");
        reach!("applied");
    }
}
/// ... and completes the application
#[no_mangle]
pub extern "C" fn c34_complete() {
    let (count, ends, claimed): (u8, u8, bool) = (any(), any(), any_bool());
    let id: u32 = any();
    let o: [u32; 6] = any();
    let q: [u8; 8] = any();
    let alien = any_bool();
    init();
    assume(count < 7 && ends < 4);
    let count = pin(count as u64) as usize;
    let ends = [0u8, (1u16 << count >> 1) as u8, ((1u16 << count) - 1) as u8 & 0x15, ((1u16 << count) - 1) as u8][pin(ends as u64) as usize];
    // (members are different: c34_start)
    for i in 0..count { for j in 0..i { assume(o[i] != o[j]); } }
    let mut place = 6;
    if pin(alien as u64) == 0 { for i in 0..count { if o[i] == id { place = i; } } }
    else { for i in 0..count { assume(o[i] != id); } }
    assume(alien || place < 6);
    let place = pin(place as u64) as usize;
    let md = bytes(<BasicWardenMapAccount as SizedAccount>::SIZE);
    let n = md.len();
    md[n - 4..].copy_from_slice(&id.to_le_bytes());
    let map = BasicWardenMapAccount::new(md).unwrap();
    let d = network(count, &o, ends);
    let v = see(d);
    let mut want = v.to_vec();
    let mut net = ApaWardenNetworkAccount::new(d).unwrap();
    let mut e = quote(99);
    e[300..308].copy_from_slice(&q);
    let claimed = if pin(claimed as u64) == 1 { id } else { id ^ 1 };
    let ok = complete_apa_genesis_warden_application(wallet(key(1), 5).signer(true).empty(), &map, &mut net, claimed, QuoteEnd(e)).is_ok();
    prop!(ok == (ends != 0x3f && place < 6 && claimed == id), "a member completes its own application, while applications are possible");
    if ok {
        let l = layout();
        want[l.ends + (H + 1) * place] = 1;
        want[l.ends + (H + 1) * place + 1..l.ends + (H + 1) * (place + 1)].copy_from_slice(&e);
        if count == 3 && place == 1 { reach!("completed"); }
    }
    prop!(v[..] == want[..], "the second half of the quote is stored in its place, and nothing else changes");
}
/// Confirmation by the members
#[no_mangle]
pub extern "C" fn c34_confirm() {
    let (ends, place, signer, message, done): (u8, u8, u8, u8, u8) = (any(), any(), any(), any(), any());
    let flip: [u8; 32] = any();
    let o: [u32; 6] = any();
    let id: u32 = any();
    init();
    assume(ends < 3 && place < 7 && signer < 7 && message < 3 && done < 64);
    let ends = [0x3fu8, 0x1f, 0x3b][pin(ends as u64) as usize];
    let place = pin(place as u64) as usize;
    let signer = pin(signer as u64) as usize;
    let done = [0u8, 1, 0x20, 0x15, 0x3f, 0x1f][{ assume(done < 6); pin(done as u64) as usize }];
    let d = network(6, &o, ends);
    let l = layout();
    for i in 0..6 { d[l.confirmations + i] = done >> i & 1; }
    let v = see(d);
    let mut want = v.to_vec();
    let mut all = vec![];
    for i in 0..6 { all.extend_from_slice(&quote(i)); all.extend_from_slice(&quote(100 + i)); }
    let mut m = solana_program::hash::hash(&all).to_bytes();
    let right = match pin(message as u64) { 0 => true, 1 => { let mut z = true; for i in 0..32 { z &= flip[i] == 0; m[i] ^= flip[i]; } z } _ => { m = [0; 32]; false } };
    let k = if signer < 6 { let q = quote(signer as u8); let mut k = [0u8; 32]; k.copy_from_slice(&q[400..432]); Pubkey::new_from_array(k) } else { key(1) };
    let md = bytes(<ApaWardenAccount as SizedAccount>::SIZE);
    let n = md.len();
    md[n - 4..].copy_from_slice(&(place as u32).to_le_bytes());
    let own = ApaWardenAccount::new(md).unwrap();
    let mut net = ApaWardenNetworkAccount::new(d).unwrap();
    prop!(net.is_application_phase() == (ends != 0x3f) && net.is_confirmed() == (ends == 0x3f && done == 0x3f), "applications are open until all quotes are complete, the network is confirmed once all members have done so");
    let ok = confirm_apa_genesis_network(wallet(k, 5).signer(true).empty(), &own, &mut net, id, m).is_ok();
    let already = place < 6 && done >> place & 1 == 1;
    prop!(ok == (ends == 0x3f && done != 0x3f && place < 6 && signer == place && right && !already), "a member confirms once, with the key of its quote and the hash of all quotes, once these are complete");
    if ok { want[l.confirmations + place] = 1; if done == 0x1f { prop!(net.is_confirmed(), "with the last confirmation the network is confirmed"); reach!("confirmed"); } }
    prop!(v[..] == want[..], "the confirmation is noted and nothing else changes");
}
