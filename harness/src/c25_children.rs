//! Child accounts: registering them and finding them among the accounts of an instruction; opening the program's accounts.
use crate::env::*;
use crate::proofs::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::map::ElusivMap;
use elusiv::processor::*;
use elusiv::state::commitment::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::state::storage::*;
use elusiv::state::vkey::VKeyAccount;
use elusiv_types::accounts::{PDAAccount, ParentAccount, ProgramAccount, SizedAccount};
use elusiv_types::bytes::ElusivOption;
use elusiv_types::UnverifiedAccountInfo;

macro_rules! enable { ($name:ident, $parent:ident, $child:ident, $map:expr, $call:expr) => {
    /// Which accounts can become a child account, and at which places
    fn $name() -> u8 {
        let index: u32 = any();
        let (taken, len, used, owner, poor): (u8, u8, u8, bool, bool) = (any(), any(), any(), any_bool(), any_bool());
        let fill: [u8; 8] = any();
        init();
        assume(taken < 3 && len < 3);
        let count = <$parent as ParentAccount>::COUNT as u32;
        assume(index < 2 || index + 2 >= count && index <= count || index > u32::MAX - 1);
        let index = pin(index as u64) as u32;
        let mut p = $parent::new(bytes(<$parent as SizedAccount>::SIZE)).unwrap();
        // a neighbour, or the place itself, is taken
        let taken = pin(taken as u64);
        let at = match taken { 0 => index, 1 => if index == 0 { 1 } else { index.wrapping_sub(1) }, _ => u32::MAX };
        if at < count { p.set_child_pubkey(at as usize, ElusivOption::Some(key(200))); }
        let size = <$child as SizedAccount>::SIZE;
        let n = size + pin(len as u64) as usize - 1;
        let d = bytes(n);
        d[0] = used;
        d[1..9].copy_from_slice(&fill);
        d[100] = 77;
        let a = acc(key(40)).owner(if pin(owner as u64) == 1 { elusiv::id() } else { key(9) }).lamports(rent(n) - poor as u64).data(d);
        let f: fn(&mut $parent<'static, 'static, 'static>, Info, u32) -> bool = $call;
        let r = f(&mut p, a, index);
        let ok = index < count && (at != index || at >= count) && len == 1 && used == 0 && owner && !poor;
        prop!(r == ok, "a child account is an unused account of the program, of the right size and rent-exempt, for a free place");
        for i in 0..if r { count } else { 0 } {
            let want = if r && i == index { Some(*a.key) } else if i == at { Some(key(200)) } else { None };
            prop!(p.get_child_pubkey(i as usize) == want, "the account is registered at its place, and all others stay");
        }
        if r {
            let mut b = a.data.borrow_mut();
            prop!(b[0] == 1 && b[100] == 77, "it is in use");
            if $map {
                let mut m = ElusivMap::<(), (), 1>::new(&mut b[1..1 + <ElusivMap::<(), (), 1> as elusiv_types::bytes::BorshSerDeSized>::SIZE]);
                prop!(m.is_empty(), "a nullifier map starts empty");
            } else { prop!(b[1..9] == fill, "its content is kept"); }
            drop(b);
            // never again, anywhere
            for i in 0..count {
                if i == index { continue; }
                let free = p.get_child_pubkey(i as usize).is_none();
                if free { prop!(!f(&mut p, a, i), "an account is child account only once"); break; }
            }
            let mut q = $parent::new(bytes(<$parent as SizedAccount>::SIZE)).unwrap();
            prop!(!f(&mut q, a, 0), "an account is child account of one account only");
            return 1;
        }
        0
    }
} }
enable!(storage, StorageAccount, StorageChildAccount, false, |p, a, i| enable_storage_child_account(p, a, i).is_ok());
enable!(metadata, MetadataAccount, MetadataChildAccount, false, |p, a, i| enable_metadata_child_account(p, a, i).is_ok());
enable!(nullifier, NullifierAccount, NullifierChildAccount, true, |p, a, i| enable_nullifier_child_account(p, a, 7, i).is_ok());
#[no_mangle]
pub extern "C" fn c25_storage() { if storage() == 1 { reach!("registered"); } }
#[no_mangle]
pub extern "C" fn c25_metadata() { if metadata() == 1 { reach!("registered"); } }
#[no_mangle]
pub extern "C" fn c25_nullifier() { if nullifier() == 1 { reach!("registered"); } }

/// Finding child accounts: the accounts given are any of `n` (child accounts, the same ones of a wrong owner or read-only, unknown ones)
fn find(n: usize, exact: bool) -> bool {
    let set: [bool; 2] = [any_bool(), any_bool()];
    let which: [u8; 4] = any();
    let writable = any_bool();
    let flaw: u8 = any();
    init();
    assume(flaw < 3);
    for i in 0..4 { assume(if i < n { which[i] < 5 } else { which[i] == 0 }); }
    let mut v = VKeyAccount::new(bytes(<VKeyAccount as SizedAccount>::SIZE)).unwrap();
    let set = [pin(set[0] as u64) == 1, pin(set[1] as u64) == 1];
    for i in 0..2 { if set[i] { v.set_child_pubkey(i, ElusivOption::Some(key(i as u8))); } }
    let flaw = pin(flaw as u64);
    let writable = pin(writable as u64) == 1;
    let mut l = vec![];
    for i in 0..n {
        let w = pin(which[i] as u64) as u8;
        // (at most one of them is flawed: the first child account)
        let a = acc(key(w));
        let a = if w < 2 && flaw == 1 { a.owner(key(90)) } else { a };
        l.push(a.writable(!(w < 2 && flaw == 2)).empty().clone());
    }
    let l: &'static [solana_program::account_info::AccountInfo<'static>] = Box::leak(l.into_boxed_slice());
    let mut iter = l.iter();
    let r = VKeyAccount::find_child_accounts(&v, &elusiv::id(), writable, &mut iter);
    let known = |a: &solana_program::account_info::AccountInfo| (0..2).any(|i| set[i] && *a.key == key(i as u8));
    match r {
        Ok(c) => {
            prop!(c.len() == 2, "one entry per child account");
            for i in 0..2 {
                if let Some(a) = c[i] {
                    prop!(set[i] && *a.key == key(i as u8), "an account is only used as the child account it is registered as");
                    prop!(*a.owner == elusiv::id(), "it belongs to the program");
                    prop!(!writable || a.is_writable, "and is writable if required");
                }
            }
            // accounts in the expected order, then others
            let mut k = 0;
            let mut last = -1i32;
            while k < n && known(&l[k]) && last < which[k] as i32 { last = which[k] as i32; k += 1; }
            let mut others = true;
            for i in k..n { others &= !known(&l[i]); }
            if others {
                let mut found = 0;
                for i in 0..2 { if c[i].is_some() { found += 1; } }
                prop!(found == k, "child accounts in order are all found");
                prop!(iter.len() == n - k, "and the accounts after them are left for the next one");
                return k > 0 && exact;
            }
            false
        }
        Err(_) => { prop!(flaw == 1 && l.iter().any(|a| known(a)) || flaw == 2 && writable && l.iter().any(|a| known(a)), "accounts are refused only if they are of another program, or not writable"); false }
    }
}
#[no_mangle]
pub extern "C" fn c25_find() { if find(3, true) { reach!("found"); } }
#[no_mangle]
pub extern "C" fn c25t_find() { if find(4, true) { reach!("found"); } }

/// Opening the accounts of the program
#[no_mangle]
pub extern "C" fn c25_open() {
    let kind: u8 = any();
    let (wrong, how): (u8, u8) = (any(), any());
    let signs = any_bool();
    let f0: u64 = any();
    init();
    assume(kind < 3 && wrong < 6 && how < 3 && f0 < 1 << 60);
    let kind = pin(kind as u64);
    let wrong = pin(wrong as u64) as usize;
    let how = pin(how as u64);
    let payer = wallet(key(1), f0).signer(pin(signs as u64) == 1).empty();
    type Q = (solana_program::pubkey::Pubkey, usize);
    let single: [Q; 6] = [
        (PoolAccount::find(None).0, <PoolAccount as SizedAccount>::SIZE), (FeeCollectorAccount::find(None).0, <FeeCollectorAccount as SizedAccount>::SIZE),
        (CommitmentHashingAccount::find(None).0, <CommitmentHashingAccount as SizedAccount>::SIZE), (CommitmentQueueAccount::find(None).0, <CommitmentQueueAccount as SizedAccount>::SIZE),
        (StorageAccount::find(None).0, <StorageAccount as SizedAccount>::SIZE), (BaseCommitmentBufferAccount::find(None).0, <BaseCommitmentBufferAccount as SizedAccount>::SIZE)];
    let list: Vec<Q> = match kind { 0 => single.to_vec(), 1 => vec![(NullifierAccount::find(Some(6)).0, <NullifierAccount as SizedAccount>::SIZE)], _ => vec![(GovernorAccount::find(None).0, <GovernorAccount as SizedAccount>::SIZE)] };
    if wrong >= list.len() { assume(how == 0); }
    let mut infos = vec![];
    let mut due = 0u64;
    for i in 0..list.len() {
        let (k, n) = list[i];
        due += rent(n);
        infos.push(if i == wrong && how == 1 { acc(k).lamports(rent(n)).data(bytes(n)) } else if i == wrong && how == 2 { wallet(key(44), 0).empty() } else { wallet(k, 0).empty() });
    }
    let u = |i: usize| UnverifiedAccountInfo::new(infos[i]);
    let r = match kind { 0 => open_single_instance_accounts(payer, u(0), u(1), u(2), u(3), u(4), u(5)), 1 => open_nullifier_account(payer, u(0), 6), _ => setup_governor_account(payer, u(0)) };
    let ok = how == 0 && signs && f0 >= due;
    prop!(r.is_ok() == ok, "the accounts are opened once, at their own addresses, by a payer who signs");
    if r.is_ok() {
        prop!(payer.lamports() == f0 - due, "the payer pays the rent");
        for i in 0..list.len() {
            let a = infos[i];
            prop!(*a.owner == elusiv::id() && a.lamports() == rent(list[i].1) && a.data_len() == list[i].1, "the program owns accounts of the right sizes");
            prop!(kind == 2 || a.data.borrow()[1..] == bytes(list[i].1 - 1)[..], "they are empty");
        }
        if kind == 2 { let mut b = infos[0].data.borrow_mut(); let g = GovernorAccount::new(&mut b).unwrap(); prop!(g.get_commitment_batching_rate() == 0 && g.get_fee_version() == 0, "with the default batching rate"); }
        reach!("opened");
    }
}

/// Opening the accounts of the later version
#[no_mangle]
pub extern "C" fn c25_upgrade() {
    let (wrong, how): (u8, u8) = (any(), any());
    let (active, queued): (bool, bool) = (any_bool(), any_bool());
    let next: u32 = any();
    init();
    assume(wrong < 4 && how < 2);
    let wrong = pin(wrong as u64);
    let how = pin(how as u64);
    let payer = wallet(key(1), 1 << 40).signer(true).empty();
    let list = [(CommitmentBufferAccount::find(None).0, <CommitmentBufferAccount as SizedAccount>::SIZE), (MetadataQueueAccount::find(None).0, <MetadataQueueAccount as SizedAccount>::SIZE), (MetadataAccount::find(None).0, <MetadataAccount as SizedAccount>::SIZE)];
    let mut infos = vec![];
    for i in 0..3 { let (k, n) = list[i]; infos.push(if i as u64 == wrong { if how == 0 { acc(k).lamports(rent(n)).data(bytes(n)) } else { wallet(key(44), 0).empty() } } else { wallet(k, 0).empty() }); }
    let mut s = crate::tree::storage_bare();
    s.set_next_commitment_ptr(&next);
    let mut h = CommitmentHashingAccount::new(bytes(<CommitmentHashingAccount as SizedAccount>::SIZE)).unwrap();
    h.set_is_active(&active);
    let mut qa = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let queued = pin(queued as u64) == 1;
    if queued { let mut q = CommitmentQueue::new(&mut qa); q.enqueue(CommitmentHashRequest { commitment: [1; 32], fee_version: 0, min_batching_rate: 0 }).unwrap(); }
    let u = |i: usize| UnverifiedAccountInfo::new(infos[i]);
    let r = create_new_accounts_v1(payer, u(0), u(1), u(2), &s, &h, &mut qa);
    prop!(r.is_ok() == (wrong == 3 && !active && !queued), "the accounts are opened once, while nothing is queued or hashed");
    if r.is_ok() {
        let mut b = infos[2].data.borrow_mut();
        let m = MetadataAccount::new(&mut b).unwrap();
        prop!(m.get_next_metadata_ptr() == next, "metadata continues at the place of the next commitment");
        reach!("opened");
    }
    let _ = el(1);
}
