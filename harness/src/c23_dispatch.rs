//! From the instruction data to the processor: every instruction only works on the accounts it is meant for.
use crate::c13_store::{price_account, program_fee};
use crate::env::*;
use crate::proofs::*;
use crate::sym::*;
use crate::{prop, reach};
use borsh::BorshSerialize;
use elusiv::bytes::ElusivOption;
use elusiv::instruction::ElusivInstruction as I;
use elusiv::processor::*;
use elusiv::proof::vkey::VerifyingKey;
use elusiv::state::commitment::*;
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::proof::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::state::storage::*;
use elusiv::state::vkey::VKeyAccount;
use elusiv::token::elusiv_token;
use elusiv::types::*;
use elusiv_types::accounts::{PDAAccount, ParentAccount, ProgramAccount, SizedAccount};
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;
use spl_associated_token_account::get_associated_token_address as ata;

/// An account of an instruction: its address is fixed, it signs, it belongs to the program; another account of the same kind
struct A { i: Info, fixed: bool, derives: bool, signs: bool, owned: bool, optional: bool, other: Vec<Info> }
fn a(i: Info) -> A { A { i, fixed: false, derives: false, signs: false, owned: false, optional: false, other: vec![] } }
impl A {
    fn fixed(mut self) -> A { self.fixed = true; self }
    fn derives(mut self) -> A { self.derives = true; self }
    fn signs(mut self) -> A { self.signs = true; self }
    fn owned(mut self) -> A { self.owned = true; self }
    fn optional(mut self) -> A { self.optional = true; self }
}
fn copy(x: Info, k: Pubkey, bump: Option<u8>) -> Info {
    let d = x.data.borrow().to_vec().leak();
    if let Some(b) = bump { d[0] = b; }
    Acc { key: k, owner: *x.owner, lamports: x.lamports(), signer: x.is_signer, writable: x.is_writable }.data(d)
}
fn at<T: PDAAccount + SizedAccount>(k: (Pubkey, u8)) -> Info { let d = bytes(T::SIZE); d[0] = k.1; acc(k.0).lamports(rent(T::SIZE)).data(d) }
/// The account of type T at an offset, and the one at the next offset
fn pd<T: PDAAccount + SizedAccount>(offset: Option<u32>, f: impl Fn(&mut [u8])) -> A {
    let x = at::<T>(T::find(offset));
    f(&mut x.data.borrow_mut());
    let o = T::find(Some(offset.map_or(0, |o| o + 1)));
    let mut r = a(x).fixed();
    r.other.push(copy(x, o.0, Some(o.1)));
    r
}
/// The verification account 3 of a fee payer, and those of another number and another fee payer
fn ver(f: impl Fn(&mut VerificationAccount)) -> A {
    let n = <VerificationAccount as SizedAccount>::SIZE;
    let k = VerificationAccount::find_with_pubkey(key(1), Some(3));
    let d = bytes(n);
    { let mut v = VerificationAccount::new(d).unwrap(); f(&mut v); }
    d[0] = k.1;
    let x = acc(k.0).lamports(rent(n)).data(d);
    let mut r = a(x).fixed();
    for o in [VerificationAccount::find_with_pubkey(key(1), Some(4)), VerificationAccount::find_with_pubkey(key(2), Some(3))] { r.other.push(copy(x, o.0, Some(o.1))); }
    r
}
fn children<T: SizedAccount>(n: usize, first: u8) -> Vec<A> { (0..n).map(|i| a(acc(key(first + i as u8)).lamports(rent(T::SIZE)).data(bytes(T::SIZE))).owned().optional()).collect() }
fn payer() -> A { a(wallet(key(1), 1 << 40).signer(true).empty()).signs() }
fn sys() -> A { a(acc(solana_program::system_program::ID).empty()).fixed() }
fn ixs() -> A { let nop = solana_program::system_instruction::transfer(&key(1), &key(2), 3); a(instructions_account(&vec![nop; 7], 2)).fixed() }
fn queue(n: u8) -> A { pd::<CommitmentQueueAccount>(None, |d| { let mut x = CommitmentQueueAccount::new(d).unwrap(); let mut q = CommitmentQueue::new(&mut x); for i in 0..n { q.enqueue(CommitmentHashRequest { commitment: [i; 32], fee_version: 7, min_batching_rate: 0 }).unwrap(); } }) }
fn metadata_queue(n: u8) -> A { pd::<MetadataQueueAccount>(None, |d| { let mut x = MetadataQueueAccount::new(d).unwrap(); let mut q = MetadataQueue::new(&mut x); for i in 0..n { q.enqueue([i; 17]).unwrap(); } }) }
fn pool() -> A { let x = pda::<PoolAccount>(1 << 40); let mut r = a(x).fixed().derives(); let o = PoolAccount::find(Some(0)); r.other.push(copy(x, o.0, Some(o.1))); r }
fn collector() -> A { let x = pda::<FeeCollectorAccount>(1 << 40); let mut r = a(x).fixed().derives(); let o = FeeCollectorAccount::find(Some(0)); r.other.push(copy(x, o.0, Some(o.1))); r }
fn program_fees() -> ProgramFee { program_fee(5_000, 3, 7, 100) }
fn governor() -> A { pd::<GovernorAccount>(None, |d| { let mut g = GovernorAccount::new(d).unwrap(); g.set_program_fee(&program_fees()); g.set_fee_version(&7); }) }
fn fee() -> A { pd::<FeeAccount>(Some(7), |d| { FeeAccount::new(d).unwrap().set_program_fee(&program_fees()); }) }
fn storage(f: impl Fn(&mut StorageAccount)) -> A { pd::<StorageAccount>(None, |d| { let mut s = StorageAccount::new(d).unwrap(); f(&mut s); }) }
fn storage_children() -> Vec<A> { children::<StorageChildAccount>(StorageAccount::COUNT, 100) }
fn with_children(s: &mut StorageAccount) { for i in 0..StorageAccount::COUNT { s.set_child_pubkey(i, ElusivOption::Some(key(100 + i as u8))); } }
fn hashing(f: impl Fn(&mut CommitmentHashingAccount)) -> A { pd::<CommitmentHashingAccount>(None, |d| { let mut s = CommitmentHashingAccount::new(d).unwrap(); f(&mut s); }) }
fn base_hashing(done: bool) -> A {
    pd::<BaseCommitmentHashingAccount>(Some(5), |d| {
        let mut h = BaseCommitmentHashingAccount::new(d).unwrap();
        h.setup(BaseCommitmentHashRequest { base_commitment: el(1), recent_commitment_index: 3, amount: 4, token_id: 0, commitment: el(5), fee_version: 7, min_batching_rate: 0 }, [6; 17], key(1).to_bytes()).unwrap();
        use elusiv::fields::u256_to_fr_skip_mr as fr;
        if done { h.set_state(&elusiv::commitment::poseidon_hash::BinarySpongeHashingState([fr(&el(5).reduce()), fr(&[0; 32]), fr(&[0; 32])])); h.set_instruction(&2); }
    })
}
fn nullifiers(mt: u32, f: impl Fn(&mut NullifierAccount)) -> A { pd::<NullifierAccount>(Some(mt), |d| { let mut s = NullifierAccount::new(d).unwrap(); f(&mut s); }) }
fn vkey(id: u32, f: impl Fn(&mut VKeyAccount)) -> A { pd::<VKeyAccount>(Some(id), |d| { let mut s = VKeyAccount::new(d).unwrap(); s.set_public_inputs_count(&14); s.set_version(&1); s.set_authority(&ElusivOption::Some(key(1))); f(&mut s); }) }
fn vkey_data(n: u8, used: u8) -> Info { let s = VerifyingKey::source_size(14) + 1; let d = bytes(s); d[0] = used; acc(key(n)).lamports(rent(s)).data(d) }
fn plain(k: u8) -> A { a(wallet(key(k), 5).empty()) }

// ---- a correct list of accounts for each instruction
fn store() -> (Vec<A>, I) {
    let k = BaseCommitmentHashingAccount::find(Some(5));
    let (p, c) = (pool(), collector());
    let sender = wallet(key(21), 1 << 40).signer(true).empty();
    let f = payer();
    let f2 = a(f.i);
    let (p2, c2) = (a(p.i), a(c.i));
    let mut h = a(wallet(k.0, 0).empty()).fixed().derives();
    h.other.push(wallet(BaseCommitmentHashingAccount::find(Some(6)).0, 0).empty());
    (vec![a(sender).signs(), a(sender), f, f2, p, p2, c, c2, a(price_account(0, 25_000_000, -6)), a(price_account(0, 25_000_000, -6)), governor(), storage(|_| {}), h, pd::<BaseCommitmentBufferAccount>(None, |_| {}), a(sys().i), sys()],
        I::StoreBaseCommitment { hash_account_index: 5, hash_account_bump: k.1, request: BaseCommitmentHashRequest { base_commitment: el(20), recent_commitment_index: 0, amount: 1 << 30, token_id: 0, commitment: el(21), fee_version: 7, min_batching_rate: 0 }, metadata: [6; 17] })
}
fn compute_base() -> (Vec<A>, I) { (vec![base_hashing(false)], I::ComputeBaseCommitmentHash { hash_account_index: 5 }) }
fn finalize_base() -> (Vec<A>, I) { (vec![a(payer().i), pool(), fee(), base_hashing(true), queue(0), metadata_queue(0)], I::FinalizeBaseCommitmentHash { hash_account_index: 5, fee_version: 7 }) }
fn setup_hash() -> (Vec<A>, I) {
    let mut l = vec![hashing(|_| {}), storage(with_children)];
    l.extend(storage_children());
    (l, I::InitCommitmentHashSetup { insertion_can_fail: false })
}
fn init_hash() -> (Vec<A>, I) {
    let mut l = vec![queue(1), metadata_queue(1), hashing(|h| { h.setup(0, &[[1; 32]; 20]).unwrap(); }), pd::<MetadataAccount>(None, |d| { let mut m = MetadataAccount::new(d).unwrap(); for i in 0..2 { m.set_child_pubkey(i, ElusivOption::Some(key(60 + i as u8))); } })];
    l.extend(children::<MetadataChildAccount>(2, 60));
    (l, I::InitCommitmentHash { insertion_can_fail: false })
}
fn compute_hash() -> (Vec<A>, I) { (vec![payer(), fee(), pool(), hashing(|h| { h.setup(0, &[[1; 32]; 20]).unwrap(); h.reset(0, 7, &[[2; 32]]).unwrap(); })], I::ComputeCommitmentHash { fee_version: 7, nonce: 0 }) }
fn finalize_hash() -> (Vec<A>, I) {
    let mut l = vec![hashing(|h| { h.setup(0, &[[1; 32]; 20]).unwrap(); h.reset(0, 7, &[[2; 32]]).unwrap(); h.set_instruction(&(elusiv::commitment::commitment_hash_computation_instructions(0).len() as u32)); }), storage(with_children)];
    l.extend(storage_children());
    (l, I::FinalizeCommitmentHash)
}
fn reset_tree() -> (Vec<A>, I) {
    let mut l = vec![storage(|s| { with_children(s); s.set_next_commitment_ptr(&(1 << 20)); s.set_mt_roots_count(&1); s.set_trees_count(&3); })];
    l.extend(storage_children());
    l.push(queue(0));
    l.push(nullifiers(3, |_| {}));
    (l, I::ResetActiveMerkleTree { active_mt_index: 3 })
}
fn close() -> (Vec<A>, I) { (vec![a(wallet(elusiv::id(), 5).signer(true).empty()).signs().fixed(), plain(6), a(at::<PoolAccount>((key(7), 0))), sys()], I::CloseProgramAccount) }

fn init_verification_() -> (Vec<A>, I) {
    let mut j = join_split(2, 0);
    j.input_commitments[1].root = Some(el(88));
    let k = VerificationAccount::find_with_pubkey(key(1), Some(3));
    let mut v = a(wallet(k.0, 0).empty()).fixed().derives();
    for o in [VerificationAccount::find_with_pubkey(key(1), Some(4)), VerificationAccount::find_with_pubkey(key(2), Some(3))] { v.other.push(wallet(o.0, 0).empty()); }
    let mut p = payer();
    p.derives = true;
    let dup = a(wallet(j.nullifier_duplicate_pda().0, 0).empty()).fixed().derives();
    let mut l = vec![p, v, vkey(0, |_| {}), dup, sys(), plain(8), storage(|s| { s.set_trees_count(&1); s.set_mt_roots_count(&1); s.set_active_mt_root_history(0, &el(77).reduce()); }), pd::<CommitmentBufferAccount>(None, |_| {}),
        nullifiers(1, |n| n.set_child_pubkey(0, ElusivOption::Some(key(200))))];
    l.extend(children::<NullifierChildAccount>(1, 200));
    l.push(nullifiers(0, |n| { n.set_child_pubkey(0, ElusivOption::Some(key(201))); n.set_root(&el(88).reduce()); }));
    l.extend(children::<NullifierChildAccount>(1, 201));
    (l, I::InitVerification { verification_account_index: 3, vkey_id: 0, tree_indices: [1, 0], request: ProofRequest::Send(send(j)), skip_nullifier_pda: false })
}
fn transfer_fee() -> (Vec<A>, I) {
    let (p, c, f) = (pool(), collector(), payer());
    let (p2, c2, f2) = (a(p.i), a(c.i), a(f.i));
    let v = ver(|v| {
        let mut j = join_split(1, 0);
        j.amount = 1 << 30; j.fee = 1 << 29; j.fee_version = 7;
        v.set_request(&ProofRequest::Send(send(j)));
        let mut d = VerificationAccountData::default();
        d.fee_payer = RawU256::new(key(1).to_bytes());
        v.set_other_data(&d);
    });
    let mut f = f;
    f.derives = true;
    (vec![f, f2, p, p2, c, c2, a(price_account(0, 25_000_000, -6)), a(price_account(0, 25_000_000, -6)), governor(), v, a(sys().i), sys()], I::InitVerificationTransferFee { verification_account_index: 3 })
}
fn proof_() -> (Vec<A>, I) {
    let proof = <Proof as borsh::BorshDeserialize>::deserialize(&mut &bytes(4096)[..]).unwrap();
    let mut f = payer();
    f.derives = true;
    (vec![f, ver(|v| { v.set_request(&ProofRequest::Send(send(join_split(1, 0)))); v.set_state(&VerificationState::FeeTransferred); v.set_other_data(&other_data(key(1), key(1), key(2), 0)); })], I::InitVerificationProof { verification_account_index: 3, proof })
}
fn compute() -> (Vec<A>, I) {
    let v = ver(|v| { v.set_request(&ProofRequest::Send(send(join_split(1, 0)))); v.set_state(&VerificationState::ProofSetup); v.set_vkey_id(&1); v.set_other_data(&other_data(key(1), key(1), key(2), 0)); });
    let mut f = a(payer().i);
    f.derives = true;
    (vec![f, v, vkey(1, |k| k.set_child_pubkey(0, ElusivOption::Some(key(30)))), A { owned: true, fixed: true, ..a(vkey_data(30, 1)) }, ixs()], I::ComputeVerification { verification_account_index: 3, vkey_id: 1 })
}
fn finalize_send() -> (Vec<A>, I) {
    let mut j = join_split(1, 0);
    j.amount = 1000;
    let mut p = send(j);
    p.hashed_inputs = generate_hashed_inputs(&key(2).to_bytes(), &key(3).to_bytes(), &[4; 32], &[5; 32], &key(8).to_bytes(), false, &p.join_split.metadata, &p.join_split.optional_fee, &None);
    let v = ver(|v| { v.set_request(&ProofRequest::Send(p.clone())); v.set_state(&VerificationState::ProofSetup); v.set_is_verified(&ElusivOption::Some(true)); v.set_other_data(&other_data(key(1), key(1), key(77), 0)); });
    let ix = |tag| solana_program::instruction::Instruction { program_id: elusiv::id(), accounts: vec![], data: vec![tag, 3, 0, 0] };
    let l = instructions_account(&[ix(I::FINALIZE_VERIFICATION_SEND_INDEX), ix(I::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX), ix(I::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX)], 0);
    let mut f = a(payer().i);
    f.derives = true;
    (vec![plain(2), plain(3), plain(8), f, queue(0), v, storage(|_| {}), pd::<CommitmentBufferAccount>(None, |_| {}), a(l).fixed()],
        I::FinalizeVerificationSend { verification_account_index: 3, data: FinalizeSendData { total_amount: 1000, token_id: 0, mt_index: 0, commitment_index: 0, iv: [4; 32], encrypted_owner: [5; 32] }, uses_memo: false })
}
fn insert() -> (Vec<A>, I) {
    let v = ver(|v| { v.set_request(&ProofRequest::Send(send(join_split(1, 0)))); v.set_state(&VerificationState::InsertNullifiers); v.set_is_verified(&ElusivOption::Some(true)); v.set_tree_indices(0, &6); v.set_other_data(&other_data(key(1), key(1), key(2), 0)); });
    let mut f = a(payer().i);
    f.derives = true;
    let mut l = vec![f, v, nullifiers(6, |n| n.set_child_pubkey(0, ElusivOption::Some(key(200))))];
    l.extend(children::<NullifierChildAccount>(1, 200));
    (l, I::FinalizeVerificationInsertNullifier { verification_account_index: 3 })
}
fn finalized(token: u16, fp_account: u8) -> A {
    let mut j = join_split(1, token);
    j.amount = 1000;
    ver(|v| { v.set_request(&ProofRequest::Send(send(j.clone()))); v.set_state(&VerificationState::Finalized); v.set_is_verified(&ElusivOption::Some(true)); v.set_other_data(&other_data(key(1), key(fp_account), key(2), token)); })
}
fn transfer_lamports() -> (Vec<A>, I) {
    let mut j = join_split(1, 0);
    j.amount = 1000;
    let mut f = payer();
    f.derives = true;
    let dup = a(duplicate(&j)).fixed().owned().derives();
    (vec![f, plain(2), pool(), collector(), plain(9), queue(0), metadata_queue(0), finalized(0, 1), dup, sys(), ixs()], I::FinalizeVerificationTransferLamports { verification_account_index: 3 })
}
fn transfer_token() -> (Vec<A>, I) {
    let mut j = join_split(1, 1);
    j.amount = 1000;
    let mint = elusiv_token(1).unwrap().mint;
    let (p, c) = (pool(), collector());
    let (p2, c2) = (token_account(ata(p.i.key, &mint), &mint, p.i.key, 1 << 40), token_account(ata(c.i.key, &mint), &mint, c.i.key, 8));
    let dup = a(duplicate(&j)).fixed().owned().derives();
    let mut f = payer();
    f.derives = true;
    (vec![f, a(token_account(key(4), &mint, &key(1), 7)), a(token_account(key(2), &mint, &key(22), 6)), plain(22), p, a(p2), c, a(c2), a(token_account(key(9), &mint, &key(30), 9)), queue(0), metadata_queue(0), finalized(1, 4), dup,
        a(acc(spl_associated_token_account::ID).empty()).fixed(), a(acc(spl_token::ID).empty()).fixed(), sys(), a(acc(mint).owner(spl_token::ID).writable(false).data(bytes(82))).derives(), ixs()], I::FinalizeVerificationTransferToken { verification_account_index: 3 })
}

fn create_vkey() -> (Vec<A>, I) {
    let mut v = a(wallet(VKeyAccount::find(Some(0)).0, 0).empty()).fixed().derives();
    v.other.push(wallet(VKeyAccount::find(Some(1)).0, 0).empty());
    (vec![payer(), v, sys()], I::CreateVkeyAccount { vkey_id: 0, public_inputs_count: 14, deploy_authority: ElusivOption::Some(key(1)) })
}
fn new_vkey() -> (Vec<A>, I) { (vec![payer(), vkey(1, |_| {}), a(vkey_data(31, 0)).owned()], I::CreateNewVkeyVersion { vkey_id: 1 }) }
fn update_vkey() -> (Vec<A>, I) {
    let v = vkey(1, |k| { k.set_child_pubkey(0, ElusivOption::Some(key(30))); k.set_child_pubkey(1, ElusivOption::Some(key(31))); });
    (vec![payer(), v, a(vkey_data(30, 1)).fixed(), sys()], I::UpdateVkeyVersion { vkey_id: 1 })
}
fn set_vkey() -> (Vec<A>, I) {
    let v = vkey(1, |k| { k.set_child_pubkey(0, ElusivOption::Some(key(30))); k.set_child_pubkey(1, ElusivOption::Some(key(31))); });
    let packet = VKeyAccountDataPacket(vec![5; VKEY_ACCOUNT_DATA_PACKET_SIZE]);
    (vec![payer(), v, a(vkey_data(30, 1)).owned().optional(), A { owned: true, fixed: true, ..a(vkey_data(31, 1)) }], I::SetVkeyData { vkey_id: 1, data_position: 0, packet })
}
fn freeze_vkey() -> (Vec<A>, I) { (vec![payer(), vkey(1, |k| { k.set_child_pubkey(0, ElusivOption::Some(key(30))); })], I::FreezeVkey { vkey_id: 1 }) }
fn authority_vkey() -> (Vec<A>, I) { (vec![payer(), vkey(1, |_| {})], I::ChangeVkeyAuthority { vkey_id: 1, authority: key(3) }) }

fn w<T: PDAAccount>(offset: Option<u32>) -> A {
    let mut r = a(wallet(T::find(offset).0, 0).empty()).fixed().derives();
    r.other.push(wallet(T::find(Some(offset.map_or(0, |o| o + 1))).0, 0).empty());
    r
}
fn open() -> (Vec<A>, I) { (vec![payer(), w::<PoolAccount>(None), w::<FeeCollectorAccount>(None), w::<CommitmentHashingAccount>(None), w::<CommitmentQueueAccount>(None), w::<StorageAccount>(None), w::<BaseCommitmentBufferAccount>(None), sys()], I::OpenSingleInstanceAccounts) }
fn open_nullifier() -> (Vec<A>, I) { (vec![payer(), w::<NullifierAccount>(Some(6)), sys()], I::OpenNullifierAccount { mt_index: 6 }) }
fn enable_storage() -> (Vec<A>, I) { (vec![storage(|_| {}), a(acc(key(60)).lamports(rent(StorageChildAccount::SIZE)).data(bytes(StorageChildAccount::SIZE))).owned()], I::EnableStorageChildAccount { child_index: 1 }) }
fn enable_nullifier() -> (Vec<A>, I) { (vec![nullifiers(6, |_| {}), a(acc(key(60)).lamports(rent(NullifierChildAccount::SIZE)).data(bytes(NullifierChildAccount::SIZE))).owned()], I::EnableNullifierChildAccount { mt_index: 6, child_index: 1 }) }
fn enable_metadata() -> (Vec<A>, I) { (vec![pd::<MetadataAccount>(None, |_| {}), a(acc(key(60)).lamports(rent(MetadataChildAccount::SIZE)).data(bytes(MetadataChildAccount::SIZE))).owned()], I::EnableMetadataChildAccount { child_index: 1 }) }
fn setup_governor() -> (Vec<A>, I) { (vec![payer(), w::<GovernorAccount>(None), sys()], I::SetupGovernorAccount) }
fn new_fee() -> (Vec<A>, I) { (vec![payer(), governor(), w::<FeeAccount>(Some(7)), sys()], I::InitNewFeeVersion { fee_version: 7, program_fee: program_fees() }) }
fn new_accounts() -> (Vec<A>, I) { (vec![payer(), w::<CommitmentBufferAccount>(None), w::<MetadataQueueAccount>(None), w::<MetadataAccount>(None), storage(|_| {}), hashing(|_| {}), queue(0), sys()], I::CreateNewAccountsV1) }

fn replace(l: &[A], i: usize, x: Info) -> Vec<AccountInfo<'static>> { l.iter().enumerate().map(|(k, y)| if k == i { x.clone() } else { y.i.clone() }).collect() }
/// One flaw in a correct list of accounts, or none
fn list(case: fn() -> (Vec<A>, I), effect: fn(&[A]) -> bool) -> bool {
    let (pos, kind, which): (u8, u8, u8) = (any(), any(), any());
    let delta: [u8; 4] = any();
    let owner: [u8; 4] = any();
    init();
    let (l, ix) = case();
    let data = ix.try_to_vec().unwrap();
    assume(kind < 7 && (pos as usize) < l.len() && which < 2);
    let kind = pin(kind as u64);
    if kind == 0 || kind == 6 { assume(pos == 0 && which == 0); }
    if kind != 2 { assume(which == 0); }
    if kind != 1 { assume(delta == [0; 4]); }
    if kind != 4 { assume(owner == [0; 4]); }
    let i = pin(pos as u64) as usize;
    let which = pin(which as u64) as usize;
    let x = &l[i];
    let infos = match kind {
        0 | 6 => replace(&l, usize::MAX, x.i),
        1 => {
            // the same content under another key
            assume(x.fixed && delta != [0; 4]);
            let mut k = x.i.key.to_bytes();
            if x.derives { assume(delta == [1, 0, 0, 0]); k[0] ^= 1; } else { for i in 0..4 { k[9 * i] ^= delta[i]; } }
            replace(&l, i, copy(x.i, Pubkey::new_from_array(k), None))
        }
        2 => { assume(which < x.other.len()); replace(&l, i, x.other[which]) }
        3 => {
            assume(x.signs);
            let mut y = x.i.clone();
            y.is_signer = false;
            replace(&l, i, leak(y))
        }
        4 => {
            assume(x.owned && owner != [0; 4]);
            let mut k = elusiv::id().to_bytes();
            for i in 0..4 { k[9 * i] ^= owner[i]; }
            let mut y = x.i.clone();
            y.owner = leak(Pubkey::new_from_array(k));
            replace(&l, i, leak(y))
        }
        _ => {
            assume(!x.optional);
            l[..i].iter().map(|y| y.i.clone()).collect()
        }
    };
    // the same account twice
    let same = |k: usize| l.iter().enumerate().filter(|(n, y)| *n != k && y.i.key == l[k].i.key).count() > 0;
    if (kind == 1 || kind == 2) && x.i.data_len() > 0 { assume(!same(i) || x.fixed); }
    let infos: &'static [AccountInfo<'static>] = Box::leak(infos.into_boxed_slice());
    let n = data.len();
    let r = elusiv::entrypoint::process_instruction(leak(elusiv::id()), infos, if kind == 6 { &data[..n - 1] } else { &data[..] });
    match kind {
        0 => { prop!(r.is_ok(), "an instruction with its own accounts is processed"); prop!(effect(&l), "and works on the right ones"); return true; }
        1 => prop!(r.is_err(), "an account at another address is refused"),
        2 => prop!(r.is_err(), "an account of the same kind, for another purpose, is refused"),
        3 => prop!(r.is_err(), "a missing signature is refused"),
        4 => prop!(r.is_err(), "an account of another program is refused"),
        5 => prop!(r.is_err(), "missing accounts are refused"),
        _ => prop!(r.is_err() || n == 1, "incomplete data is refused"),
    }
    false
}
const MUCH: u64 = 1 << 40;
fn tokens(x: &A) -> u64 { token_balance(x.i) }
fn moved(x: &A, n: u64) -> bool { x.i.lamports() == n }
fn vk<T>(x: &A, f: impl Fn(&VKeyAccount) -> T) -> T { let mut b = x.i.data.borrow_mut(); let v = VKeyAccount::new(&mut b).unwrap(); f(&v) }
fn effect_store(l: &[A]) -> bool { l[0].i.lamports() <= MUCH - (1 << 30) && l[2].i.lamports() > MUCH - (1 << 29) && *l[12].i.owner == elusiv::id() }
fn effect_base(l: &[A]) -> bool { l[0].i.lamports() == MUCH + 15_200 + rent(<BaseCommitmentHashingAccount as SizedAccount>::SIZE) }
fn effect_hash(l: &[A]) -> bool { moved(&l[0], MUCH + 5_100) && moved(&l[2], MUCH - 5_100) }
fn effect_lamports(l: &[A]) -> bool { moved(&l[1], 1_005) && moved(&l[4], 5) && l[0].i.lamports() > MUCH && moved(&l[7], 0) && moved(&l[8], 0) }
fn effect_token(l: &[A]) -> bool { tokens(&l[1]) == 7 && tokens(&l[2]) == 1_006 && tokens(&l[5]) == MUCH - 1_000 && tokens(&l[7]) == 8 && tokens(&l[8]) == 9 && moved(&l[3], 5) && moved(&l[11], 0) && moved(&l[12], 0) }
fn effect_update(l: &[A]) -> bool { vk(&l[1], |v| v.get_child_pubkey(0) == Some(key(31)) && v.get_child_pubkey(1).is_none()) && moved(&l[2], 0) && l[0].i.lamports() > MUCH }
fn effect_set(l: &[A]) -> bool { l[3].i.data.borrow()[1..965] == [5; 964] && l[2].i.data.borrow()[1..] == bytes(l[2].i.data_len() - 1)[..] }
fn effect_authority(l: &[A]) -> bool { vk(&l[1], |v| v.get_authority() == ElusivOption::Some(key(3)) && !v.get_is_frozen()) }
fn effect_freeze(l: &[A]) -> bool { vk(&l[1], |v| v.get_authority() == ElusivOption::Some(key(1)) && v.get_is_frozen()) }
fn effect_create(l: &[A]) -> bool { vk(&l[1], |v| v.get_authority() == ElusivOption::Some(key(1)) && v.get_public_inputs_count() == 14 && !v.get_is_frozen()) }
fn effect_send(l: &[A]) -> bool { let mut b = l[5].i.data.borrow_mut(); let v = VerificationAccount::new(&mut b).unwrap(); v.get_state() == VerificationState::InsertNullifiers }
fn effect_close(l: &[A]) -> bool { moved(&l[0], 5) && moved(&l[1], 5 + rent(<PoolAccount as SizedAccount>::SIZE)) && moved(&l[2], 0) }
fn none(_: &[A]) -> bool { true }
#[no_mangle]
pub extern "C" fn c23_store() { if list(store, effect_store) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_compute_base() { if list(compute_base, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_finalize_base() { if list(finalize_base, effect_base) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_setup_hash() { if list(setup_hash, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_init_hash() { if list(init_hash, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_compute_hash() { if list(compute_hash, effect_hash) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_finalize_hash() { if list(finalize_hash, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_reset_tree() { if list(reset_tree, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_close() { if list(close, effect_close) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_init_verification() { if list(init_verification_, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_transfer_fee() { if list(transfer_fee, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_proof() { if list(proof_, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_compute() { if list(compute, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_finalize_send() { if list(finalize_send, effect_send) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_insert() { if list(insert, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_transfer_lamports() { if list(transfer_lamports, effect_lamports) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_transfer_token() { if list(transfer_token, effect_token) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_create_vkey() { if list(create_vkey, effect_create) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_new_vkey() { if list(new_vkey, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_update_vkey() { if list(update_vkey, effect_update) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_set_vkey() { if list(set_vkey, effect_set) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_freeze_vkey() { if list(freeze_vkey, effect_freeze) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_authority_vkey() { if list(authority_vkey, effect_authority) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_open() { if list(open, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_open_nullifier() { if list(open_nullifier, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_enable_storage() { if list(enable_storage, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_enable_nullifier() { if list(enable_nullifier, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_enable_metadata() { if list(enable_metadata, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_setup_governor() { if list(setup_governor, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_new_fee() { if list(new_fee, none) { reach!("processed"); } }
#[no_mangle]
pub extern "C" fn c23_new_accounts() { if list(new_accounts, none) { reach!("processed"); } }

/// Data that is no instruction
#[no_mangle]
pub extern "C" fn c23_data() {
    let d: [u8; 8] = any();
    let n: u8 = any();
    init();
    assume(n < 9);
    let n = pin(n as u64) as usize;
    let unknown = d[0] > 35;
    assume(n == 0 || unknown);
    let r = elusiv::entrypoint::process_instruction(leak(elusiv::id()), &[], &d[..n]);
    prop!(r.is_err(), "unknown instructions are refused");
    reach!("refused");
}

/// The seeds of different accounts differ
#[no_mangle]
pub extern "C" fn c23_seeds() {
    let (x, y): (u8, u8) = (any(), any());
    let o: [u32; 2] = any();
    let k: [[u8; 32]; 2] = any();
    assume(x < 15 && y < 15);
    fn s<T: PDAAccount>(k: &[u8; 32], o: Option<u32>, with: bool) -> Vec<u8> { T::seeds(T::SEED, if with { Some(Pubkey::new_from_array(*k)) } else { None }, o).concat() }
    let f = |n: u64, i: usize| -> Vec<u8> {
        match n {
            0 => s::<PoolAccount>(&k[i], None, false), 1 => s::<FeeCollectorAccount>(&k[i], None, false), 2 => s::<GovernorAccount>(&k[i], None, false), 3 => s::<StorageAccount>(&k[i], None, false),
            4 => s::<CommitmentHashingAccount>(&k[i], None, false), 5 => s::<CommitmentQueueAccount>(&k[i], None, false), 6 => s::<BaseCommitmentBufferAccount>(&k[i], None, false), 7 => s::<CommitmentBufferAccount>(&k[i], None, false),
            8 => s::<MetadataAccount>(&k[i], None, false), 9 => s::<MetadataQueueAccount>(&k[i], None, false),
            10 => s::<BaseCommitmentHashingAccount>(&k[i], Some(o[i]), false), 11 => s::<NullifierAccount>(&k[i], Some(o[i]), false), 12 => s::<VKeyAccount>(&k[i], Some(o[i]), false), 13 => s::<FeeAccount>(&k[i], Some(o[i]), false),
            _ => s::<VerificationAccount>(&k[i], Some(o[i]), true),
        }
    };
    let (x, y) = (pin(x as u64), pin(y as u64));
    let (a, b) = (f(x, 0), f(y, 1));
    if a == b {
        prop!(x == y, "accounts of different kinds have different seeds");
        prop!(x < 10 || o[0] == o[1], "and those of different offsets");
        prop!(x < 14 || k[0] == k[1], "and those of different owners");
        if x == 14 { reach!("same"); }
    }
}
