//! The active tree's account with its child accounts
use crate::env::*;
use elusiv::state::storage::{StorageAccount, StorageChildAccount};
use elusiv_types::accounts::{ParentAccount, ProgramAccount, SizedAccount};

pub type Storage = StorageAccount<'static, 'static, 'static>;
/// All child accounts present and empty
pub fn storage_full() -> Storage {
    let mut c = vec![None; StorageAccount::COUNT];
    for i in 0..StorageAccount::COUNT { c[i] = Some(acc(key(100 + i as u8)).data(bytes(<StorageChildAccount as SizedAccount>::SIZE))); }
    StorageAccount::new_with_child_accounts(bytes(<StorageAccount as SizedAccount>::SIZE), c).unwrap()
}
/// As most instructions see it: without child accounts
pub fn storage_bare() -> Storage { StorageAccount::new_with_child_accounts(bytes(<StorageAccount as SizedAccount>::SIZE), vec![None; StorageAccount::COUNT]).unwrap() }
