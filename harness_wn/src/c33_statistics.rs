//! The calendar, and the statistics of wardens.
use crate::env::*;
use crate::env::init;
use crate::sym::*;
use crate::wardens::*;
use crate::{prop, reach};
use elusiv_types::accounts::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv_warden_network::processor::*;
use elusiv_warden_network::warden::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;

const Y2K: u64 = 946_684_800;
/// Days from 2000-01-01 to the first day of a year of 2000..=2100
fn first_day(y: u64) -> u64 { 365 * (y - 2000) + (y - 2000 + 3) / 4 }

/// The day and year of any timestamp
#[no_mangle]
pub extern "C" fn c33_calendar() {
    let t: u64 = any();
    noabort(true);
    match unix_timestamp_to_day_and_year(t) {
        None => prop!(t < Y2K || t >= Y2K + 86_400 * first_day(2100), "every moment of 2000 to 2099 has a day"),
        Some((d, y)) => {
            let y = y as u64;
            prop!(y >= 2000 && y < 2100 && t >= Y2K, "only the years 2000 to 2099");
            let leap = y % 4 == 0;
            prop!(d >= 1 && d <= 365 + leap as u32, "the days of a year are 1 to 365, or 366 in a leap year");
            let start = Y2K + 86_400 * (first_day(y) + d as u64 - 1);
            prop!(start <= t && t < start + 86_400, "the moment is within the day of the year");
            if leap && d == 366 { reach!("the last day of a leap year"); }
        }
    }
}

/// The address of the elusiv program on the network that this build of the warden network is for
pub fn elusiv_id() -> Pubkey {
    let ids: Vec<Pubkey> = include_str!("/repo/Id.toml").lines().filter(|l| l.contains("net = ")).map(|l| std::str::FromStr::from_str(l.split('"').nth(1).unwrap()).unwrap()).collect();
    let n = ids.len() / 2;
    ids[ids[n..].iter().position(|i| *i == elusiv_warden_network::id()).unwrap()]
}

/// Tracking an instruction of the given number, with the warden at some place of its accounts
fn track(tag: Option<u8>) -> bool {
    let day: u8 = any();
    let second: u32 = any();
    let (program, place, count, first, stats_year, can_fail): (bool, u8, u8, bool, u8, bool) = (any_bool(), any(), any(), any_bool(), any(), any_bool());
    let old: u32 = any();
    let total: u32 = any();
    let last: u64 = any();
    init();
    assume(day < 5 &&  second < 86_400 && place < 5 && count < 2 && stats_year < 3);
    assume(old < u32::MAX && total < u32::MAX);
    let (day, year) = [(1u32, 2023u64), (200, 2024), (365, 2023), (365, 2024), (366, 2024)][pin(day as u64) as usize];
    let t = Y2K + 86_400 * (first_day(year) + day as u64 - 1) + second as u64;
    set_clock(t as i64);
    let size = <BasicWardenStatsAccount as SizedAccount>::SIZE;
    let d = bytes(size);
    let v: &'static [u8] = unsafe { std::slice::from_raw_parts(d.as_ptr(), size) };
    const S: usize = 367 * 4;
    let base = size - 3 * S;
    for c in 0..3 {
        d[base + c * S + 4 * (day as usize - 1)..base + c * S + 4 * day as usize].copy_from_slice(&old.to_le_bytes());
        d[base + c * S + S - 4..base + c * S + S].copy_from_slice(&total.to_le_bytes());
    }
    d[base - 8..base].copy_from_slice(&last.to_le_bytes());
    let year = year as u16;
    let stats_year = pin(stats_year as u64);
    let (ys, ya) = match stats_year { 0 => (year, year), 1 => (year + 1, year), _ => (year - 1, year - 1) };
    d[base - 10..base - 8].copy_from_slice(&ys.to_le_bytes());
    let before = v.to_vec();
    let mut stats = BasicWardenStatsAccount::new(d).unwrap();
    let place = pin(place as u64) as usize;
    let n = pin(count as u64) as usize * 4 + 2;
    let accounts = (0..n).map(|i| AccountMeta::new(if i == place { key(1) } else { key(50 + i as u8) }, i == place)).collect();
    let program = pin(program as u64) == 1;
    let ix = Instruction { program_id: if program { elusiv_id() } else { key(9) }, accounts, data: match tag { Some(t) => vec![t, 3], None => vec![] } };
    let first = pin(first as u64) == 1;
    let own = Instruction { program_id: elusiv_warden_network::id(), accounts: vec![], data: vec![10, 0] };
    let l = if first { instructions_account(&[own, ix], 0) } else { instructions_account(&[ix, own], 1) };
    let can_fail = pin(can_fail as u64) == 1;
    let class = match tag { Some(2) => 0, Some(13) | Some(14) => 1, _ => 3 };
    noabort(true);
    let r = track_basic_warden_stats(wallet(key(1), 5).empty(), &mut stats, l, ya, can_fail);
    let changed = v[..] != before[..];
    prop!(!changed || tag.is_some() && class < 3 && program && !first && stats_year == 0 && place < n, "only instructions of elusiv that are tracked count, in their year, for a warden that takes part");
    if changed {
        let mut e = before;
        e[base + class * S + 4 * (day as usize - 1)..base + class * S + 4 * day as usize].copy_from_slice(&(old + 1).to_le_bytes());
        e[base + class * S + S - 4..base + class * S + S].copy_from_slice(&(total + 1).to_le_bytes());
        e[base - 8..base].copy_from_slice(&t.to_le_bytes());
        prop!(v[..] == e[..], "one activity of its kind is counted, for its day and in total, and the time noted");
    }
    prop!(r.is_ok() == (changed || !can_fail), "an error is reported unless tracking must not fail");
    if class < 3 {
        if !changed { reach!("not counted"); }
        // (the account that pays is the first one of each of these instructions)
        let due = program && !first && stats_year == 0 && place == 0;
        prop!(!due || changed, "an activity is counted for the warden that pays for it");
        prop!(!changed || place != 1, "no activity counts for the account at place 1, which does not pay for it");
        prop!(!changed || place != 3, "no activity counts for the account at place 3, which does not pay for it");
        prop!(!changed || place == 0, "an activity only counts for the warden that pays for it");
    }
    changed
}
/// The instruction a commitment is finalized with, those a transfer is finalized with, and all others
#[no_mangle]
pub extern "C" fn c33_store() { if track(Some(2)) { reach!("counted"); } }
#[no_mangle]
pub extern "C" fn c33_lamports() { track(Some(13)); }
#[no_mangle]
pub extern "C" fn c33_token() { track(Some(14)); }
#[no_mangle]
pub extern "C" fn c33_other() {
    let tag: u8 = any();
    assume(tag != 2 && tag != 13 && tag != 14);
    track(Some(tag));
    reach!("other");
}
#[no_mangle]
pub extern "C" fn c33_empty() { track(None); reach!("no data"); }
