//! The parties and data a proof was made for cannot be replaced.
use crate::env::*;
use crate::proofs::*;
use crate::sym::*;
use crate::tree::*;
use crate::{prop, reach};
use elusiv::bytes::ElusivOption;
use elusiv::instruction::ElusivInstruction;
use elusiv::processor::*;
use elusiv::state::commitment::*;
use elusiv::state::proof::*;
use elusiv::types::*;
use elusiv_types::accounts::{ProgramAccount, SizedAccount};
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

#[derive(Clone)]
struct Data { recipient: [u8; 32], identifier: [u8; 32], iv: [u8; 32], owner: [u8; 32], reference: [u8; 32], ata: bool, metadata: [u8; 17], collector: [u8; 32], optional: u64, memo: Option<Vec<u8>> }
impl Data {
    fn any(memo: Option<[u8; 40]>, n: usize) -> Self {
        Data { recipient: any(), identifier: any(), iv: any(), owner: any(), reference: any(), ata: pin(any_bool() as u64) == 1, metadata: any(), collector: any(), optional: any(), memo: memo.map(|m| m[..n].to_vec()) }
    }
    fn hash(&self) -> [u8; 32] {
        generate_hashed_inputs(&self.recipient, &self.identifier, &self.iv, &self.owner, &self.reference, self.ata, &self.metadata, &OptionalFee { collector: Pubkey::new_from_array(self.collector), amount: self.optional }, &self.memo)
    }
}
fn ix(data: Vec<u8>) -> Instruction { Instruction { program_id: elusiv::id(), accounts: vec![], data } }
const MEMO: Pubkey = Pubkey::new_from_array([5, 74, 83, 90, 153, 41, 33, 6, 77, 36, 232, 113, 96, 218, 56, 124, 124, 53, 181, 221, 188, 146, 187, 129, 228, 31, 168, 64, 65, 5, 68, 141]);

/// The request and the finalization claim `b`
fn finalize(b: &Data, hash: [u8; 32], pay: bool) -> (bool, Info) {
    let mut j = join_split(1, 0);
    j.amount = 1 << 62;
    j.metadata = b.metadata;
    j.optional_fee = OptionalFee { collector: Pubkey::new_from_array(b.collector), amount: b.optional };
    let mut p = send(j);
    p.hashed_inputs = hash;
    p.recipient_is_associated_token_account = b.ata;
    p.solana_pay_transfer = pay;
    let total = p.join_split.total_amount();
    let request = ProofRequest::Send(p);
    let v = verification(|v| { v.set_request(&request); v.set_state(&VerificationState::ProofSetup); v.set_is_verified(&ElusivOption::Some(true)); v.set_other_data(&other_data(key(1), key(1), key(2), 0)); });
    let mut list = vec![ix(vec![ElusivInstruction::FINALIZE_VERIFICATION_SEND_INDEX, 0]), ix(vec![ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX, 0])];
    if let Some(m) = &b.memo { list.push(Instruction { program_id: MEMO, accounts: vec![], data: m.clone() }); }
    if pay { list.push(ix(vec![])); }
    let ixs = instructions_account(&list, 0);
    let storage = storage_bare();
    let mut q = CommitmentQueueAccount::new(bytes(<CommitmentQueueAccount as SizedAccount>::SIZE)).unwrap();
    let mut buffer = CommitmentBufferAccount::new(bytes(<CommitmentBufferAccount as SizedAccount>::SIZE)).unwrap();
    let recipient = acc(Pubkey::new_from_array(b.recipient)).empty();
    let identifier = acc(Pubkey::new_from_array(b.identifier)).empty();
    let reference = acc(Pubkey::new_from_array(b.reference)).empty();
    let none = b.reference == [0; 32];
    let d = FinalizeSendData { total_amount: total, token_id: 0, mt_index: 0, commitment_index: 0, iv: b.iv, encrypted_owner: b.owner };
    let r = view(v, |v| finalize_verification_send(recipient, identifier, if none { ixs } else { reference }, &mut q, v, &storage, &mut buffer, ixs, 0, d.clone(), b.memo.is_some()));
    (r.is_ok(), v)
}
fn same(a: &Data, b: &Data) -> bool {
    a.recipient == b.recipient && a.identifier == b.identifier && a.iv == b.iv && a.owner == b.owner && a.reference == b.reference && a.ata == b.ata && a.metadata == b.metadata
        && a.collector == b.collector && a.optional == b.optional && a.memo.clone().unwrap_or_default() == b.memo.clone().unwrap_or_default()
}
/// Everything different at once, no memo
#[no_mangle]
pub extern "C" fn c21_binding() {
    let a = Data::any(None, 0);
    let b = Data::any(None, 0);
    init();
    // (a reference that is the instructions sysvar stands for none)
    assume(b.optional < 1 << 60 && a.reference != solana_program::sysvar::instructions::ID.to_bytes() && b.reference != solana_program::sysvar::instructions::ID.to_bytes());
    let h = a.hash();
    let (ok, v) = finalize(&b, h, false);
    let eq = same(&a, &b);
    prop!(!ok || eq, "only the data the proof was made for is accepted");
    prop!(ok || !eq, "and it is accepted");
    if ok {
        let r = view(v, |v| v.get_other_data().recipient_wallet.option().unwrap().skip_mr());
        prop!(r == a.recipient, "the recipient of the proof is who will be paid");
        reach!("accepted");
    } else { reach!("refused"); }
}
/// With memos
fn memo(la: u64, lb: u64, pay: bool) -> (bool, bool) {
    let ma: [u8; 40] = any();
    let mb: [u8; 40] = any();
    let a = Data::any(if la == 41 { None } else { Some(ma) }, if la == 41 { 0 } else { la as usize });
    let b = Data { memo: if lb == 41 { None } else { Some(mb[..lb as usize].to_vec()) }, recipient: any(), optional: any(), ..a.clone() };
    init();
    // (a reference that is the instructions sysvar stands for none)
    assume(b.optional < 1 << 60 && a.reference != solana_program::sysvar::instructions::ID.to_bytes() && b.reference != solana_program::sysvar::instructions::ID.to_bytes());
    let h = a.hash();
    let (ok, _) = finalize(&b, h, pay);
    (ok, same(&a, &b))
}
#[no_mangle]
pub extern "C" fn c21_memo() {
    let k: [u8; 3] = any();
    assume(k[0] < 5 && k[1] < 5 && k[2] < 2);
    const L: [u64; 5] = [41, 0, 1, 30, 40];
    let (la, lb, pay) = (L[pin(k[0] as u64) as usize], L[pin(k[1] as u64) as usize], pin(k[2] as u64) == 1);
    let (ok, eq) = memo(la, lb, pay);
    prop!(!ok || eq, "only the memo the proof was made for is accepted");
    prop!(ok || !eq, "and it is accepted");
    if ok && la == 40 && pay { reach!("accepted"); }
}
