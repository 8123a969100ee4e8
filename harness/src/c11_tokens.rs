//! Amounts of tokens, and their conversion at a price.
use crate::env::*;
use crate::sym::*;
use crate::{prop, reach};
use elusiv::token::*;
use solana_program::program_pack::Pack;

/// Limits, additions and subtractions
#[no_mangle]
pub extern "C" fn c11_amounts() {
    let (a, b): (u64, u64) = (any(), any());
    let (ta, tb): (u16, u16) = (any(), any());
    noabort(true);
    let n = TOKENS.len() as u16;
    prop!(elusiv_token(ta).is_ok() == (ta < n), "the known tokens");
    let ok = ta < n && { let t = &TOKENS[pin(ta as u64) as usize]; a >= t.min && a <= t.max };
    let x = Token::new_checked(ta, a);
    prop!(x.is_ok() == ok, "an amount is accepted exactly within the limits of a known token");
    if let Ok(t) = x { prop!(t.token_id() == ta && t.amount() == a, "it is that amount"); }
    if ta < 3 && tb < 3 {
        let x = Token::new(ta, a);
        let y = Token::new(tb, b);
        prop!(x.token_id() == ta && x.amount() == a, "an amount of a token");
        prop!(x.into_lamports().is_ok() == (ta == 0) && x.enforce_token_equality(&y).is_ok() == (ta == tb), "tokens are not mixed up");
        let s = x + y;
        let d = x - y;
        match s {
            Ok(s) => { prop!(ta == tb && s.token_id() == ta && s.amount() as u128 == a as u128 + b as u128, "a sum is exact and of the same token"); reach!("sum"); }
            Err(_) => { prop!(ta != tb || a as u128 + b as u128 >= 1 << 64, "sums of the same token that fit are computed"); reach!("no sum"); }
        }
        match d {
            Ok(d) => { prop!(ta == tb && d.token_id() == ta && a >= b && d.amount() == a - b, "a difference is exact and of the same token"); }
            Err(_) => { prop!(ta != tb || a < b, "differences of the same token that fit are computed"); reach!("no difference"); }
        }
        match Lamports(a) + Lamports(b) {
            Ok(s) => { prop!(s.0 as u128 == a as u128 + b as u128, "a sum of lamports is exact"); }
            Err(_) => { prop!(a as u128 + b as u128 >= 1 << 64, "sums that fit are computed"); }
        }
    }
}

/// Token, SOL price and token price (each with exponent)
const PRICES: [(u16, i64, i32, i64, i32); 8] = [
    (1, 25_123_457, -6, 1_000_000, -6),
    (4, 2_512_345_678, -8, 123_456, -10),
    (3, 180_000_000, -6, 203_112_345, -6),
    (2, 99_999_999_999, -8, 99_887_712, -8),
    (5, 1_234_567, -5, 4_567, -6),
    (1, 3, 0, 1, 0),
    (7, 14_000_000_000, -8, 312_345_678, -8),
    (6, 2_000_000_001, -8, 2_299_999_999, -8),
];
fn price(c: usize) -> TokenPrice {
    let (id, s, es, t, et) = PRICES[c];
    TokenPrice::new(crate::c13_store::price_account(0, s, es), crate::c13_store::price_account(id as usize, t, et), id).unwrap()
}
/// A lamport and a unit of the token, in the same currency
fn worth(c: usize) -> (u128, u128) {
    let (id, s, es, t, et) = PRICES[c];
    let (a, b) = (es - 9, et - TOKENS[id as usize].decimals as i32);
    let m = if a < b { a } else { b };
    (s as u128 * 10u128.pow((a - m) as u32), t as u128 * 10u128.pow((b - m) as u32))
}
const LIM: u64 = 1 << 51;

/// Lamports as tokens
fn lamports(c: usize) {
    let l: u64 = any();
    init();
    assume(l < LIM);
    noabort(true);
    let r = price(c).lamports_into_token(&Lamports(l), PRICES[c].0);
    prop!(r.is_ok(), "lamports can be converted");
    let Ok(t) = r else { return };
    prop!(t.token_id() == PRICES[c].0, "the result is of the token");
    let (pl, pt) = worth(c);
    let v = l as u128 * pl;
    let w = t.amount() as u128 * pt;
    prop!(w <= v + v / 4_000_000, "no more than their value (but for the precision of a price)");
    prop!(v <= w + pt + v / 4_000_000, "and no less but for rounding");
}
/// Tokens as lamports
fn tokens(c: usize) {
    let n: u64 = any();
    init();
    assume(n < LIM);
    noabort(true);
    let r = price(c).token_into_lamports(Token::new(PRICES[c].0, n));
    prop!(r.is_ok(), "tokens can be converted");
    let Ok(l) = r else { return };
    let (pl, pt) = worth(c);
    let v = n as u128 * pt;
    let w = l.0 as u128 * pl;
    prop!(w <= v + v / 4_000_000, "no more than their value (but for the precision of a price)");
    prop!(v <= w + pl + v / 4_000_000, "and no less but for rounding");
}
#[no_mangle]
pub extern "C" fn c11_lamports() { lamports(0); reach!("tokens"); }
#[no_mangle]
pub extern "C" fn c11_tokens() { tokens(1); reach!("lamports"); }
#[no_mangle]
pub extern "C" fn c11t_lamports() {
    let c: u8 = any();
    assume(c < 8);
    lamports(pin(c as u64) as usize);
    reach!("tokens");
}
#[no_mangle]
pub extern "C" fn c11t_tokens() {
    let c: u8 = any();
    assume(c < 8);
    tokens(pin(c as u64) as usize);
    reach!("lamports");
}
/// Prices are for one token
#[no_mangle]
pub extern "C" fn c11_same_token() {
    let (a, b): (u8, u8) = (any(), any());
    let n: u64 = any();
    init();
    assume(a < 3 && b < 3);
    let (a, b) = (pin(a as u64) as u16, pin(b as u64) as u16);
    let p = TokenPrice::new(crate::c13_store::price_account(0, 25_000_000, -6), crate::c13_store::price_account(a as usize, 1_000_000, -6), a).unwrap();
    if a != b {
        prop!(p.lamports_into_token(&Lamports(n), b).is_err() && p.token_into_lamports(Token::new(b, n)).is_err(), "a price is used for its own token");
        reach!("another token");
    } else if a == 0 {
        prop!(p.lamports_into_token(&Lamports(n), 0) == Ok(Token::Lamports(Lamports(n))), "lamports are lamports");
        match p.token_into_lamports(Token::new(0, n)) { Ok(l) => { prop!(l.0 == n, "lamports are lamports"); } Err(_) => { prop!(false, "lamports are lamports"); } }
        reach!("lamports");
    }
}

/// Which price accounts are used
#[no_mangle]
pub extern "C" fn c11_price_accounts() {
    let (a, b): (u8, u8) = (any(), any());
    let id: u16 = any();
    let (pa, pb): (i64, i64) = (any(), any());
    init();
    assume(a < 4 && b < 4 && id < 4);
    assume(pa > -2 && pa < 3 && pb > -2 && pb < 3);
    let id = pin(id as u64) as u16;
    let (pa, pb) = (pin(pa as u64) as i64, pin(pb as u64) as i64);
    let account = |i: u64, p: i64| if i < 3 { crate::c13_store::price_account(i as usize, p, -6) } else { let x = crate::c13_store::price_account(0, p, -6); acc(key(8)).owner(key(70)).data(leak(x.data.borrow().to_vec())) };
    let (sol, usd) = (account(pin(a as u64), pa), account(pin(b as u64), pb));
    let r = TokenPrice::new(sol, usd, id);
    if id == 0 { prop!(r.is_ok(), "lamports need no price"); return; }
    prop!(r.is_err() || (id < 3 && a == 0 && b as u16 == id), "only the price accounts of the token are used");
    prop!(r.is_ok() || !(id < 3 && a == 0 && b as u16 == id), "these are accepted");
    if let Ok(p) = r {
        let l = p.lamports_into_token(&Lamports(1_000_000), id);
        prop!(l.is_err() || (pb != 0 && (pa >= 0) == (pb > 0) || pa == 0), "no conversion at a negative price");
        reach!("price");
    }
}

/// Which accounts can receive a token
#[no_mangle]
pub extern "C" fn c11_token_accounts() {
    let id: u16 = any();
    let len: u8 = any();
    let owner: u8 = any();
    let mint: [u8; 32] = any();
    let mint_of: u8 = any();
    let state: u8 = any();
    init();
    assume(owner < 3 && len < 3 && mint_of < 4);
    assume(id < 4 || id == TOKENS.len() as u16 || id == u16::MAX);
    let id = pin(id as u64) as u16;
    let d = bytes([165, 0, 164][pin(len as u64) as usize]);
    let m = pin(mint_of as u64) as usize; // (3: any mint)
    if len == 0 {
        d[..32].copy_from_slice(&if m < 3 { TOKENS[m].mint.to_bytes() } else { mint });
        d[108] = state;
    }
    let a = acc(key(3)).owner([spl_token::ID, solana_program::system_program::ID, elusiv::id()][pin(owner as u64) as usize]).data(d);
    let r = verify_token_account(a, id);
    let good = if id == 0 { owner != 0 } else {
        owner == 0 && len == 0 && (state == 1 || state == 2) && (id as usize) < TOKENS.len() && d_mint(a) == TOKENS[id as usize].mint.to_bytes()
    };
    prop!((r == Ok(true)) == good, "a token account is an initialized account of the token's mint, and no token account for lamports");
    if good && id > 0 { reach!("token account"); }
}
fn d_mint(a: Info) -> [u8; 32] { let d = a.data.borrow(); let mut m = [0u8; 32]; m.copy_from_slice(&d[..32]); m }

/// The associated token account of a wallet
#[no_mangle]
pub extern "C" fn c11_associated() {
    let id: u8 = any();
    let which: u8 = any();
    let k: [u8; 32] = any();
    assume(id < 4 && which < 5);
    let id = pin(id as u64) as u16;
    let id = if id == 3 { TOKENS.len() as u16 } else { id };
    let which = pin(which as u64);
    let w = key(5);
    let x = match which {
        0 => w,
        1 | 2 => spl_associated_token_account::get_associated_token_address(&w, &TOKENS[which as usize].mint),
        3 => spl_associated_token_account::get_associated_token_address(&key(6), &TOKENS[1].mint),
        _ => solana_program::pubkey::Pubkey::new_from_array(k),
    };
    let r = verify_associated_token_account(&w, &x, id);
    let own = if id == 0 { x == w } else if id < 3 { x == spl_associated_token_account::get_associated_token_address(&w, &TOKENS[id as usize].mint) } else { false };
    prop!((r == Ok(true)) == own, "only the wallet's own associated account of the token");
    prop!(r.is_ok() == (id < 3), "for known tokens");
    if own { reach!("associated"); }
}
