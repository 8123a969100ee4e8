//! Moving lamports and tokens.
use crate::env::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv_utils::*;
use elusiv_types::accounts::{PDAAccount, SizedAccount};

fn system() -> Info { acc(solana_program::system_program::ID).owner(key(71)).writable(false).empty() }
fn token_program() -> Info { acc(spl_token::ID).owner(key(71)).writable(false).empty() }

/// Lamports of an account of the program
#[no_mangle]
pub extern "C" fn c12_pda_lamports() {
    let (x, y, n): (u64, u64, u64) = (any(), any(), any());
    let size: u16 = any();
    init();
    assume(size < 4);
    let size = [1, 5, 100, 10_000][pin(size as u64) as usize];
    let a = acc(key(1)).lamports(x).data(bytes(size));
    let b = acc(key(2)).owner(key(3)).lamports(y).empty();
    noabort(true);
    let r = transfer_lamports_from_pda_checked(a, b, n);
    let ok = x as u128 >= n as u128 + rent(size) as u128 && y as u128 + (n as u128) < 1 << 64;
    prop!(r.is_ok() == ok, "an account of the program pays out as long as it stays rent-exempt");
    if r.is_ok() {
        prop!(a.lamports() == x - n && b.lamports() == y + n, "exactly the amount is moved");
        reach!("moved");
    } else { reach!("refused"); }
}
/// Closing an account of the program
#[no_mangle]
pub extern "C" fn c12_close() {
    let (x, y): (u64, u64) = (any(), any());
    init();
    let a = acc(key(1)).lamports(x).data(bytes(10));
    let b = wallet(key(2), y).empty();
    noabort(true);
    let r = close_account(b, a);
    prop!(r.is_ok() == (x as u128 + (y as u128) < 1 << 64), "an account can be closed");
    if r.is_ok() { prop!(a.lamports() == 0 && b.lamports() == y + x, "everything goes to the receiver"); reach!("closed"); }
}
/// Lamports of a wallet
#[no_mangle]
pub extern "C" fn c12_wallet() {
    let (x, y, n): (u64, u64, u64) = (any(), any(), any());
    let signer = any_bool();
    let program: u8 = any();
    init();
    assume(program < 3);
    let a = wallet(key(1), x).signer(pin(signer as u64) == 1).empty();
    let b = wallet(key(2), y).empty();
    let p = [system(), token_program(), acc(key(8)).empty()][pin(program as u64) as usize];
    let r = transfer_with_system_program(a, b, p, n);
    let ok = signer && program == 0 && x >= n && y as u128 + (n as u128) < 1 << 64;
    prop!(r.is_ok() == ok, "a wallet pays by the system program, with its signature");
    if r.is_ok() { prop!(a.lamports() == x - n && b.lamports() == y + n, "exactly the amount is moved"); reach!("moved"); }
    if program != 0 { prop!(calls() == 0, "no other program is called"); }
}
/// Opening an account of the program
#[no_mangle]
pub extern "C" fn c12_open() {
    let f0: u64 = any();
    let offset: u8 = any();
    let bump: u8 = any();
    let wrong: u8 = any();
    let signer = any_bool();
    init();
    assume(offset < 3 && bump < 3 && wrong < 4);
    let offset = pin(offset as u64);
    let offset = if offset == 2 { None } else { Some(offset as u32 * 1000) };
    type T = elusiv::state::commitment::BaseCommitmentHashingAccount<'static>;
    let n = <T as SizedAccount>::SIZE;
    let (k, b) = T::find(offset);
    let payer = wallet(key(1), f0).signer(pin(signer as u64) == 1).empty();
    let wrong = pin(wrong as u64);
    let a = match wrong { 1 => wallet(key(7), 0).empty(), 2 => acc(k).lamports(rent(n)).data(bytes(n)), 3 => wallet(T::find(Some(77)).0, 0).empty(), _ => wallet(k, 0).empty() };
    let given = match pin(bump as u64) { 0 => None, 1 => Some(b), _ => Some(b - 1) };
    let r = open_pda_account::<T>(&elusiv::id(), payer, a, None, offset, given, n);
    let ok = wrong == 0 && bump < 2 && signer && f0 >= rent(n);
    prop!(r.is_ok() || !ok, "an account that does not exist can be opened");
    prop!(r.is_err() || ok, "only at its own address, by a payer who signs and can pay");
    if r.is_ok() {
        prop!(*a.owner == elusiv::id() && a.lamports() == rent(n) && payer.lamports() == f0 - rent(n), "rent-exempt, paid by the payer");
        let d = a.data.borrow();
        prop!(d.len() == n && d[0] == b && d[1] == 0, "of its size, with its bump and version");
        prop!(d[2..].iter().all(|x| *x == 0), "and otherwise zero");
        reach!("opened");
    }
}
