//! The partial verification of a proof computes the same as arkworks' pairing.
use crate::sym::*;
use crate::{prop, reach};
use ark_bn254::{Bn254, Fq, Fq12, Fq2, G1Affine, G1Projective, G2Affine, Parameters};
use ark_ec::models::bn::{G1Prepared, G2Prepared};
use ark_ec::PairingEngine;
use ark_ff::{BigInteger256, Field, Zero};
use ark_ec::{AffineCurve, ProjectiveCurve};
use elusiv::fields::{G1A, G2A};
use elusiv::proof::verifier::{prepare_public_inputs_instructions, verify_partial, VerificationStep, COMBINED_MILLER_LOOP_IXS, FINAL_EXPONENTIATION_IXS};
use elusiv::processor::COMPUTE_VERIFICATION_IX_COUNT;
use elusiv::types::RawU256;
use elusiv::proof::vkey::VerifyingKey;
use elusiv::state::proof::{VerificationAccount, VerificationState};
use elusiv::bytes::BorshSerDeSized;
use elusiv::state::program_account::PDAAccountData;
use elusiv_types::accounts::{ProgramAccount, SizedAccount};

pub fn bytes(n: usize) -> &'static mut [u8] { Box::leak(vec![0u8; n].into_boxed_slice()) }
/// A symbolic element of the base field, in Montgomery form
pub fn fq() -> Fq {
    let b: [u8; 32] = any();
    below_q(&b);
    let l = |i: usize| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    Fq::new(BigInteger256([l(0), l(1), l(2), l(3)]))
}
pub fn fq2() -> Fq2 { let a = fq(); let b = fq(); Fq2::new(a, b) }
pub fn put(d: &mut [u8], x: &Fq) { for i in 0..4 { d[8 * i..8 * i + 8].copy_from_slice(&x.0 .0[i].to_le_bytes()); } }
pub fn put2(d: &mut [u8], x: &Fq2) { put(d, &x.c0); put(&mut d[32..], &x.c1); }
fn put12(d: &mut [u8], x: &Fq12) { for (i, c) in [x.c0.c0, x.c0.c1, x.c0.c2, x.c1.c0, x.c1.c1, x.c1.c2].iter().enumerate() { put2(&mut d[64 * i..], c); } }
pub fn bytes12(x: &Fq12) -> [u8; 384] { let mut d = [0u8; 384]; put12(&mut d, x); d }

const COEFFS: usize = 91;
/// A verifying key with one public input: its coefficients for gamma and delta are symbolic
pub struct Key { pub source: &'static mut [u8], gamma: Vec<(Fq2, Fq2, Fq2)>, delta: Vec<(Fq2, Fq2, Fq2)> }
const OFF: usize = 384 + 65 + 32 * 255 * 65;
fn key() -> Key {
    let mut coeffs = || (0..COEFFS).map(|_| (fq2(), fq2(), fq2())).collect();
    let (g, d) = (coeffs(), coeffs());
    key_of(g, d)
}
pub fn key_of(gamma: Vec<(Fq2, Fq2, Fq2)>, delta: Vec<(Fq2, Fq2, Fq2)>) -> Key {
    let source = bytes(VerifyingKey::source_size(1));
    for (k, cs) in [&gamma, &delta].iter().enumerate() {
        for (i, c) in cs.iter().enumerate() {
            let o = OFF + (k * COEFFS + i) * 192;
            put2(&mut source[o..], &c.0);
            put2(&mut source[o + 64..], &c.1);
            put2(&mut source[o + 128..], &c.2);
        }
    }
    Key { source, gamma, delta }
}

const A: [u8; 65] = { let mut a = [0x77u8; 65]; a[64] = 1; a };
/// The account's data, and where the point A of the proof is stored in it
pub fn account() -> (&'static mut [u8], usize) {
    let d = bytes(<VerificationAccount as SizedAccount>::SIZE);
    let at = {
        let m = bytes(<VerificationAccount as SizedAccount>::SIZE);
        { let mut v = VerificationAccount::new(m).unwrap(); v.a.set(G1A(G1Affine::new(mark(), mark(), true))); v.b.get(); }
        let mut at = 0;
        while m[at..at + 65] != A { at += 1; }
        at
    };
    (d, at)
}
/// The instruction and the round the account is at
fn progress(d: &[u8]) -> (u32, u32) {
    let o = <PDAAccountData as BorshSerDeSized>::SIZE;
    (u32::from_le_bytes(d[o..o + 4].try_into().unwrap()), u32::from_le_bytes(d[o + 4..o + 8].try_into().unwrap()))
}
fn mark() -> Fq { Fq::new(BigInteger256([0x7777777777777777; 4])) }

/// Runs a verification from the Miller loop on, and compares it with arkworks' pairing
fn verification(ai: bool, ci: bool, xi: bool, proof: Option<(G1Affine, G2Affine, G1Affine)>, miller_only: bool) {
    let (a, b, c) = match proof {
        Some(p) => p,
        None => (G1Affine::new(fq(), fq(), ai), G2Affine::new(fq2(), fq2(), false), G1Affine::new(fq(), fq(), ci)),
    };
    let x = G1Affine::new(fq(), fq(), xi);
    let early: u16 = any();
    assume(early != COMPUTE_VERIFICATION_IX_COUNT - 1);
    let k = key();
    generic();
    let (d, at) = account();
    put(&mut d[at..], &a.x); put(&mut d[at + 32..], &a.y); d[at + 64] = ai as u8;
    put2(&mut d[at + 65..], &b.x); put2(&mut d[at + 129..], &b.y);
    put(&mut d[at + 194..], &c.x); put(&mut d[at + 226..], &c.y); d[at + 258] = ci as u8;
    put(&mut d[at + 259..], &x.x); put(&mut d[at + 291..], &x.y); d[at + 323] = xi as u8;
    { let mut v = VerificationAccount::new(d).unwrap(); v.set_state(&VerificationState::ProofSetup); v.set_step(&VerificationStep::CombinedMillerLoop); }
    for _ in 0..COMBINED_MILLER_LOOP_IXS {
        let vkey = VerifyingKey::new(k.source, 1).unwrap();
        let mut v = VerificationAccount::new(d).unwrap();
        prop!(matches!(v.get_step(), VerificationStep::CombinedMillerLoop), "the Miller loop takes its instructions");
        prop!(verify_partial(&mut v, &vkey, early) == Ok(None), "a step of the Miller loop");
    }
    let f = Bn254::miller_loop(&[
        (G1Prepared(a), G2Prepared::<Parameters>::from(b)),
        (G1Prepared(x), G2Prepared { ell_coeffs: k.gamma, infinity: false }),
        (G1Prepared(c), G2Prepared { ell_coeffs: k.delta, infinity: false }),
    ]);
    let o = at + 259 + 65 + 192;
    prop!(d[o..o + 384] == bytes12(&f), "the product of the three Miller loops");
    prop!(progress(d) == (0, 0), "the Miller loop is followed by the final exponentiation");
    prop!(matches!(VerificationAccount::new(d).unwrap().get_step(), VerificationStep::FinalExponentiation), "the Miller loop is followed by the final exponentiation");
    if miller_only { return; }
    for i in 0..FINAL_EXPONENTIATION_IXS - 1 {
        let vkey = VerifyingKey::new(k.source, 1).unwrap();
        let mut v = VerificationAccount::new(d).unwrap();
        if i == 3 {
            prop!(verify_partial(&mut v, &vkey, early) == Ok(None), "other instructions of the transaction");
            drop(v);
            prop!(progress(d).0 == i as u32, "only one instruction of a transaction computes");
            v = VerificationAccount::new(d).unwrap();
        }
        prop!(verify_partial(&mut v, &vkey, COMPUTE_VERIFICATION_IX_COUNT - 1) == Ok(None), "no result before the end");
    }
    let r = Bn254::final_exponentiation(&f).unwrap();
    // the same as alpha_beta, and different in one coefficient
    for i in 0..13 {
        let mut ab = bytes12(&r);
        let cs = [r.c0.c0.c0, r.c0.c0.c1, r.c0.c1.c0, r.c0.c1.c1, r.c0.c2.c0, r.c0.c2.c1, r.c1.c0.c0, r.c1.c0.c1, r.c1.c1.c0, r.c1.c1.c1, r.c1.c2.c0, r.c1.c2.c1];
        if i < 12 { let e = cs[i] + Fq::from(1u8); put(&mut ab[32 * i..], &e); }
        k.source[..384].copy_from_slice(&ab);
        let copy = bytes(d.len());
        copy.copy_from_slice(d);
        let vkey = VerifyingKey::new(k.source, 1).unwrap();
        let mut v = VerificationAccount::new(copy).unwrap();
        prop!(verify_partial(&mut v, &vkey, COMPUTE_VERIFICATION_IX_COUNT - 1) == Ok(Some(i == 12 && proof.is_some())), "a proof is valid iff the pairing equation holds");
        prop!(verify_partial(&mut v, &vkey, COMPUTE_VERIFICATION_IX_COUNT - 1).is_err(), "nothing is computed after the result");
        if i == 12 { drop(v); prop!(copy[o..o + 384] == bytes12(&r), "the result of the final exponentiation"); }
    }
    reach!("a whole verification");
}
/// Points of the curves, any verifying key and prepared inputs
#[no_mangle]
pub extern "C" fn c09_verification() {
    let n: u8 = any();
    assume(n < 3);
    let n = pin(n as u64);
    let (g, h) = (G1Affine::prime_subgroup_generator(), G2Affine::prime_subgroup_generator());
    let g2 = (g.into_projective() + g.into_projective()).into_affine();
    let h2 = (h.into_projective() + h.into_projective()).into_affine();
    verification(false, false, false, Some(match n { 0 => (g, h, g2), 1 => (g2, h2, -g), _ => (-g2, -h, g) }), false);
}
/// Points in general position: the pairing is the same, but they are not on the curves, so that no proof is valid
#[no_mangle]
pub extern "C" fn c09_pairing() { verification(false, false, false, None, false); }
/// Points at infinity contribute nothing
#[no_mangle]
pub extern "C" fn c09_infinity() {
    let n: u8 = any();
    assume(n < 8);
    let n = pin(n as u64);
    verification(n & 1 != 0, n & 2 != 0, n & 4 != 0, None, true);
    reach!("points at infinity");
}

/// Two public inputs: any distribution of the rounds over the instructions gives the same point
fn inputs(split: u64, whole: bool) {
    const N: usize = 2;
    let ic = G1Affine::new(fq(), fq(), false);
    let (mut inputs, mut pts) = ([[0u8; 32]; N], vec![]);
    for i in 0..N { for w in 0..32 { if (i, w) == (0, 0) || w % 5 == 1 + i || w == 31 { inputs[i][w] = (7 * i + 8 * w + 1) as u8; } } }
    let source = bytes(VerifyingKey::source_size(N));
    put(&mut source[384..], &ic.x); put(&mut source[416..], &ic.y);
    for i in 0..N { for w in 0..32 { if inputs[i][w] != 0 {
        let p = G1Affine::new(fq(), fq(), false);
        let o = 384 + 65 + ((i * 32 + w) * 255 + inputs[i][w] as usize - 1) * 65;
        put(&mut source[o..], &p.x); put(&mut source[o + 32..], &p.y);
        pts.push((i, p));
    } } }
    generic();
    let (d, at) = account();
    let rounds: Vec<u32> = if whole { vec![1; 33 * N] } else if split == 0 { prepare_public_inputs_instructions(&inputs, N) } else { vec![split as u32, (33 * N) as u32 - split as u32] };
    {
        let mut v = VerificationAccount::new(d).unwrap();
        let raw: Vec<RawU256> = inputs.iter().map(|x| RawU256::new(*x)).collect();
        for (i, x) in raw.iter().enumerate() { v.set_public_input(i, x); }
        prop!(v.setup_public_inputs_instructions(&rounds).is_ok(), "instructions");
    }
    for i in 0..rounds.len() {
        let vkey = VerifyingKey::new(source, N).unwrap();
        let mut v = VerificationAccount::new(d).unwrap();
        prop!(matches!(v.get_step(), VerificationStep::PublicInputPreparation), "the preparation takes its instructions");
        prop!(verify_partial(&mut v, &vkey, 3) == Ok(None), "other instructions of the transaction");
        drop(v);
        prop!(progress(d).0 == i as u32, "only the last instruction of a transaction prepares inputs");
        let mut v = VerificationAccount::new(d).unwrap();
        prop!(verify_partial(&mut v, &vkey, COMPUTE_VERIFICATION_IX_COUNT - 1) == Ok(None), "a step of the preparation");
        drop(v);
    }
    let mut sum = ic.into_projective();
    for i in 0..N {
        let mut acc = G1Projective::zero();
        for (j, p) in &pts { if *j == i { acc.add_assign_mixed(p); } }
        sum += acc;
    }
    let r = sum.into_affine();
    let mut e = [0u8; 65];
    put(&mut e, &r.x); put(&mut e[32..], &r.y);
    prop!(d[at + 259..at + 324] == e, "the prepared inputs are the sum of the inputs' multiples");
    prop!(progress(d) == (0, 0) && matches!(VerificationAccount::new(d).unwrap().get_step(), VerificationStep::CombinedMillerLoop), "the preparation is followed by the Miller loop");
    reach!("prepared inputs");
}
#[no_mangle]
pub extern "C" fn c09_inputs() { inputs(0, true); inputs(0, false); }
#[no_mangle]
pub extern "C" fn c09_splits() { let s: u8 = any(); assume(s >= 1 && s < 66); inputs(pin(s as u64), false); }

/// Every value of a verifying key is read from its own place
#[no_mangle]
pub extern "C" fn c09_key() {
    const N: usize = 14;
    let b: u8 = any();
    let source = bytes(VerifyingKey::source_size(N));
    let mark = |d: &mut [u8], o: usize, k: u64| d[o..o + 8].copy_from_slice(&k.to_le_bytes());
    for k in 0..12 { mark(source, 32 * k, 1 + k as u64); }
    mark(source, 384, 101);
    mark(source, 416, 102);
    let t = 384 + 65;
    for k in 0..N * 32 * 255 { mark(source, t + 65 * k, 1000 + k as u64); mark(source, t + 65 * k + 32, 2_000_000 + k as u64); }
    let t = t + 65 * N * 32 * 255;
    for k in 0..2 * 2 * COEFFS * 3 { mark(source, t + 32 * k, 5_000_000 + k as u64); }
    let b = pin(b as u64) as u8;
    let key = VerifyingKey::new(source, N).unwrap();
    let raw = |x: &Fq, k: u64| x.0 .0 == [k, 0, 0, 0];
    for i in 0..N { for w in 0..32 {
        let p = key.gamma_abc(i, w, b);
        if b == 0 { prop!(p.infinity, "an empty window adds nothing"); }
        else {
            let k = ((i * 32 + w) * 255 + b as usize - 1) as u64;
            prop!(raw(&p.x, 1000 + k) && raw(&p.y, 2_000_000 + k) && !p.infinity, "the multiple of the input's point");
        }
    } }
    if b < 91 {
        for j in 0..3 {
            let k = 5_000_000 + 2 * (b as u64 * 3 + j as u64);
            let (g, d) = (key.gamma_g2_neg_pc(b as usize, j), key.delta_g2_neg_pc(b as usize, j));
            prop!(raw(&g.c0, k) && raw(&g.c1, k + 1), "gamma's coefficients");
            prop!(raw(&d.c0, k + 546) && raw(&d.c1, k + 547), "delta's coefficients");
        }
    }
    let (ab, ic) = (key.alpha_beta(), key.gamma_abc_base());
    prop!(raw(&ab.c0.c0.c0, 1) && raw(&ab.c0.c0.c1, 2) && raw(&ab.c0.c1.c0, 3) && raw(&ab.c0.c1.c1, 4) && raw(&ab.c0.c2.c0, 5) && raw(&ab.c0.c2.c1, 6)
        && raw(&ab.c1.c0.c0, 7) && raw(&ab.c1.c0.c1, 8) && raw(&ab.c1.c1.c0, 9) && raw(&ab.c1.c1.c1, 10) && raw(&ab.c1.c2.c0, 11) && raw(&ab.c1.c2.c1, 12), "alpha and beta's pairing");
    prop!(raw(&ic.x, 101) && raw(&ic.y, 102), "the constant term");
    reach!("key");
}

/// The preparation of any inputs is cut into instructions that do all rounds within the compute units
#[no_mangle]
pub extern "C" fn c09_instructions() {
    let n: u8 = any();
    let kinds: [u8; 4] = any();
    assume(n < 4);
    let n = [1, 2, 7, 14][pin(n as u64) as usize];
    for k in 0..4 { assume(kinds[k] < 5); if k >= n { assume(kinds[k] == 0); } }
    let mut inputs = vec![[0u8; 32]; n];
    for i in 0..n {
        let k = pin(kinds[i % 4] as u64);
        for w in 0..32 { if match k { 0 => false, 1 => true, 2 => w == 0, 3 => w % 2 == 0, _ => w > 3 } { inputs[i][w] = 1 + w as u8; } }
    }
    let ixs = prepare_public_inputs_instructions(&inputs, n);
    prop!(ixs.len() <= 10 * n && ixs.len() <= 140, "as many instructions as the account has room for");
    let mut round = 0;
    for r in &ixs {
        prop!(*r >= 1 && *r <= u16::MAX as u32, "an instruction does something");
        let mut cost = 0;
        for k in round..round + *r as usize {
            prop!(k < 33 * n, "all rounds, and not more");
            let (i, w) = (k / 33, k % 33);
            if inputs[i] == [0; 32] { continue; }
            cost += if w == 32 { 30 } else if inputs[i][w] != 0 { 22 } else { 0 };
        }
        prop!(cost <= 1330, "an instruction stays within its compute units");
        round += *r as usize;
    }
    prop!(round == 33 * n, "all rounds, and not more");
    reach!("instructions");
}
