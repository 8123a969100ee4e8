//! Proof requests and verification accounts
use crate::env::*;
use elusiv::bytes::ElusivOption;
use elusiv::processor::ProofRequest;
use elusiv::state::proof::*;
use elusiv::token::Lamports;
use elusiv::types::*;
use elusiv_types::accounts::{PDAAccount, ProgramAccount, SizedAccount};
use solana_program::pubkey::Pubkey;

/// A small field element
pub fn el(n: u8) -> RawU256 { let mut x = [0u8; 32]; x[0] = n; RawU256::new(x) }

/// A join-split of `n` inputs of one tree
pub fn join_split(n: usize, token_id: u16) -> JoinSplitPublicInputs {
    let mut ics = vec![];
    for i in 0..n { ics.push(InputCommitment { root: if i == 0 { Some(el(77)) } else { None }, nullifier_hash: el(10 + i as u8) }); }
    JoinSplitPublicInputs { input_commitments: ics, output_commitment: el(55), recent_commitment_index: 0, fee_version: 0, amount: 0, fee: 0,
        optional_fee: OptionalFee { collector: key(9), amount: 0 }, token_id, metadata: [3; 17] }
}
pub fn send(j: JoinSplitPublicInputs) -> SendPublicInputs { SendPublicInputs { join_split: j, recipient_is_associated_token_account: false, solana_pay_transfer: false, hashed_inputs: [0; 32] } }

pub fn other_data(fee_payer: Pubkey, fee_payer_account: Pubkey, recipient: Pubkey, token_id: u16) -> VerificationAccountData {
    VerificationAccountData { fee_payer: RawU256::new(fee_payer.to_bytes()), fee_payer_account: RawU256::new(fee_payer_account.to_bytes()), recipient_wallet: ElusivOption::Some(RawU256::new(recipient.to_bytes())),
        skip_nullifier_pda: false, min_batching_rate: 0, token_id, subvention: 0, network_fee: 0, commitment_hash_fee: Lamports(0), commitment_hash_fee_token: 0, proof_verification_fee: 0, associated_token_account_rent: 0 }
}

/// A rent-exempt verification account (`f` fills it in)
pub fn verification(f: impl Fn(&mut VerificationAccount)) -> Info {
    let n = <VerificationAccount as SizedAccount>::SIZE;
    let d = bytes(n);
    { let mut v = VerificationAccount::new(d).unwrap(); f(&mut v); }
    acc(key(40)).lamports(rent(n)).data(d)
}
pub fn view<T>(i: Info, mut f: impl FnMut(&mut VerificationAccount) -> T) -> T { let mut b = i.data.borrow_mut(); let mut v = VerificationAccount::new(&mut b).unwrap(); f(&mut v) }

/// The account reserving the nullifier-hashes of a join-split
pub fn duplicate(j: &JoinSplitPublicInputs) -> Info {
    let n = <NullifierDuplicateAccount as SizedAccount>::SIZE;
    let (k, bump) = j.nullifier_duplicate_pda();
    let d = bytes(n);
    d[0] = bump;
    acc(k).lamports(rent(n)).data(d)
}
pub fn pda<T: PDAAccount + SizedAccount>(lamports: u64) -> Info {
    let (k, bump) = T::find(None);
    let d = bytes(T::SIZE);
    d[0] = bump;
    acc(k).lamports(lamports).data(d)
}
