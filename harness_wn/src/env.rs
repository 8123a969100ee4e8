//! Accounts and a runtime for the code under test: leaked account infos, and the syscalls it uses (sysvars, and cross-program
//! invocations of the system, token and associated-token programs, modelled on the accounts' memory).

use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::sysvar::instructions::{construct_instructions_data, BorrowedAccountMeta, BorrowedInstruction};

pub type Info = &'static AccountInfo<'static>;
pub fn leak<T>(x: T) -> &'static mut T { Box::leak(Box::new(x)) }
pub fn bytes(n: usize) -> &'static mut [u8] { Box::leak(vec![0u8; n].into_boxed_slice()) }
pub fn key(n: u8) -> Pubkey { let mut k = [0x5au8; 32]; k[0] = n; k[31] = 0xc3; Pubkey::new_from_array(k) }

#[derive(Clone, Copy)]
pub struct Acc { pub key: Pubkey, pub owner: Pubkey, pub lamports: u64, pub signer: bool, pub writable: bool }
pub fn acc(k: Pubkey) -> Acc { Acc { key: k, owner: elusiv_warden_network::id(), lamports: 0, signer: false, writable: true } }
/// An account of the system program: a wallet
pub fn wallet(k: Pubkey, lamports: u64) -> Acc { acc(k).owner(solana_program::system_program::ID).lamports(lamports) }
impl Acc {
    pub fn owner(mut self, o: Pubkey) -> Self { self.owner = o; self }
    pub fn lamports(mut self, l: u64) -> Self { self.lamports = l; self }
    pub fn signer(mut self, s: bool) -> Self { self.signer = s; self }
    pub fn writable(mut self, s: bool) -> Self { self.writable = s; self }
    pub fn data(self, d: &'static mut [u8]) -> Info {
        leak(AccountInfo::new(leak(self.key), self.signer, self.writable, leak(self.lamports), d, leak(self.owner), false, 0))
    }
    pub fn empty(self) -> Info { self.data(bytes(0)) }
}

pub fn rent(size: usize) -> u64 { (128 + size as u64) * 3480 * 2 }

// ---- token accounts
pub fn token_account(k: Pubkey, mint: &Pubkey, owner: &Pubkey, amount: u64) -> Info {
    let d = bytes(165);
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    acc(k).owner(spl_token::ID).lamports(rent(165)).data(d)
}
pub fn token_balance(a: Info) -> u64 { let d = a.data.borrow(); let mut b = [0u8; 8]; b.copy_from_slice(&d[64..72]); u64::from_le_bytes(b) }
fn set_token_balance(a: &AccountInfo, v: u64) { a.data.borrow_mut()[64..72].copy_from_slice(&v.to_le_bytes()); }

/// The instructions sysvar of a transaction
pub fn instructions_account(ixs: &[Instruction], current: u16) -> Info {
    let b: Vec<BorrowedInstruction> = ixs.iter().map(|i| BorrowedInstruction {
        program_id: &i.program_id,
        accounts: i.accounts.iter().map(|m| BorrowedAccountMeta { pubkey: &m.pubkey, is_signer: m.is_signer, is_writable: m.is_writable }).collect(),
        data: &i.data,
    }).collect();
    let mut d = construct_instructions_data(&b);
    let n = d.len();
    d[n - 2..].copy_from_slice(&current.to_le_bytes());
    acc(solana_program::sysvar::instructions::ID).owner(solana_program::sysvar::ID).writable(false).data(Box::leak(d.into_boxed_slice()))
}

// ---- cross-program invocations
static mut CALLS: usize = 0;
/// Number of cross-program invocations so far
pub fn calls() -> usize { unsafe { CALLS } }
static mut CLOCK: i64 = 0;
pub fn set_clock(t: i64) { unsafe { CLOCK = t; } }

const E: ProgramError = ProgramError::Custom(0xdead);
fn find<'a, 'b>(infos: &'a [AccountInfo<'b>], k: &Pubkey) -> Result<&'a AccountInfo<'b>, ProgramError> {
    for i in infos { if i.key == k { return Ok(i); } }
    Err(ProgramError::NotEnoughAccountKeys)
}
fn u64_at(d: &[u8], o: usize) -> u64 { let mut b = [0u8; 8]; b.copy_from_slice(&d[o..o + 8]); u64::from_le_bytes(b) }
fn move_lamports(a: &AccountInfo, b: &AccountInfo, n: u64) -> ProgramResult {
    let x = a.lamports().checked_sub(n).ok_or(E)?;
    **a.lamports.borrow_mut() = x;
    let y = b.lamports().checked_add(n).ok_or(E)?;
    **b.lamports.borrow_mut() = y;
    Ok(())
}
fn create(payer: &AccountInfo, a: &AccountInfo, lamports: u64, space: usize, owner: &Pubkey) -> ProgramResult {
    if a.lamports() != 0 || a.data_len() != 0 || *a.owner != solana_program::system_program::ID { return Err(E); }
    move_lamports(payer, a, lamports)?;
    if lamports < rent(space) { return Err(E); }
    *a.data.borrow_mut() = bytes(space);
    unsafe { *(a.owner as *const Pubkey as *mut Pubkey) = *owner; }
    Ok(())
}
fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    unsafe { CALLS += 1; }
    // the runtime's privilege checks
    for m in &ix.accounts {
        let Ok(i) = find(infos, &m.pubkey) else { continue };
        if m.is_writable && !i.is_writable { return Err(ProgramError::Custom(0xdeb1)); }
        if m.is_signer && !i.is_signer {
            let mut ok = false;
            for s in seeds { ok |= Pubkey::create_program_address(s, &elusiv_warden_network::id()) == Ok(m.pubkey); }
            if !ok { return Err(ProgramError::MissingRequiredSignature); }
        }
    }
    let a = |n: usize| find(infos, &ix.accounts[n].pubkey);
    let d = &ix.data[..];
    if ix.program_id == solana_program::system_program::ID {
        match d[0] {
            0 => {
                let mut o = [0u8; 32];
                o.copy_from_slice(&d[20..52]);
                create(a(0)?, a(1)?, u64_at(d, 4), u64_at(d, 12) as usize, &Pubkey::new_from_array(o))
            }
            2 => {
                if *a(0)?.owner != solana_program::system_program::ID || a(0)?.data_len() != 0 { return Err(E); }
                move_lamports(a(0)?, a(1)?, u64_at(d, 4))
            }
            _ => Err(E),
        }
    } else if ix.program_id == spl_token::ID {
        if d[0] != 3 { return Err(E); }
        let (s, t, auth) = (a(0)?, a(1)?, &ix.accounts[2].pubkey);
        if *s.owner != spl_token::ID || *t.owner != spl_token::ID || s.data_len() != 165 || t.data_len() != 165 { return Err(E); }
        {
            let (x, y) = (s.data.borrow(), t.data.borrow());
            if x[108] != 1 || y[108] != 1 || x[..32] != y[..32] || x[32..64] != auth.to_bytes() { return Err(E); }
        }
        let n = u64_at(d, 1);
        let (x, y) = (u64_at(&s.data.borrow(), 64), u64_at(&t.data.borrow(), 64));
        if x < n { return Err(E); }
        if s.key != t.key { set_token_balance(s, x - n); set_token_balance(t, y.checked_add(n).ok_or(E)?); }
        Ok(())
    } else { Err(ProgramError::IncorrectProgramId) }
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 { unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent { lamports_per_byte_year: 3480, exemption_threshold: 2.0, burn_percent: 50 }; } 0 }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 { unsafe { let mut c = solana_program::clock::Clock::default(); c.unix_timestamp = CLOCK; *(p as *mut solana_program::clock::Clock) = c; } 0 }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult { invoke(ix, infos, seeds) }
}
pub fn init() { unsafe { CALLS = 0; } solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs)); }


/// Sum of the lamports of accounts
pub fn total(a: &[Info]) -> u128 { a.iter().map(|i| i.lamports() as u128).sum() }

