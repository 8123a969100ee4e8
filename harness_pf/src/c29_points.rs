//! A proof with something else than points of the groups is never valid, even if the pairing equation holds for its coordinates.
use crate::c09_proofs::*;
use crate::sym::*;
use crate::{prop, reach};
use ark_bn254::{Bn254, Fq, Fq2, G1Affine, G2Affine, Parameters};
use ark_ec::models::bn::{G1Prepared, G2Prepared};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::BigInteger256;
use elusiv::processor::{init_verification_proof, COMPUTE_VERIFICATION_IX_COUNT};
use elusiv::proof::verifier::{verify_partial, VerificationStep, COMBINED_MILLER_LOOP_IXS, FINAL_EXPONENTIATION_IXS};
use elusiv::proof::vkey::VerifyingKey;
use elusiv::state::proof::{VerificationAccount, VerificationAccountData, VerificationState};
use elusiv::types::{Proof, RawU256};
use elusiv_types::accounts::ProgramAccount;
use solana_program::{account_info::AccountInfo, pubkey::Pubkey};

fn n(l: [u64; 4]) -> Fq { Fq::new(BigInteger256(l)) }
const Q: [u64; 4] = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
/// the same coordinate, not reduced
fn unreduced(d: &mut [u8]) {
    let mut carry = 0u128;
    for i in 0..4 {
        let x = u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap()) as u128 + Q[i] as u128 + carry;
        d[8 * i..8 * i + 8].copy_from_slice(&(x as u64).to_le_bytes());
        carry = x >> 64;
    }
}
/// Points of the curve over the quadratic extension outside the group: one of large order, one of order 10069, and the generator plus the latter
fn outside(k: u64) -> G2Affine {
    let c = match k {
        0 => [[0xa6ba871b8b1e1b3a, 0x14f1d651eb8e167b, 0xccdd46def0f28c58, 0x1c14ef83340fbe5e], [0xd35d438dc58f0d9d, 0xa78eb28f5c70b3d, 0x666ea36f7879462c, 0xe0a77c19a07df2f], [0x294a5225573dc93, 0x53874be07988f4f1, 0x2a05d8b41ccce7d3, 0x20045194f06acd0e], [0x3814c8e5e4179a98, 0x793241f4d911e617, 0x28cf8e4b0df4482e, 0xd612bd6f79bd361]],
        1 => [[0x94482aab202a550f, 0x5b568561616f15fb, 0x630a324c2202b36a, 0x1103382479f60e06], [0xd85259a3ea9cb683, 0xc64076bfa1ac211d, 0xa91e4da7a21e2c4b, 0x22d4651d79afdd8a], [0xd14eb900ae7ef9e6, 0xfd2b938b79062e6d, 0x9b54cbe589a027ee, 0x1289dd24b7abe844], [0x625e85a3fbb83eb3, 0xc99bdc4e13e6fde3, 0xd983e6d89904cad6, 0x17ed84857afb0e13]],
        _ => [[0x999ec07b4e635316, 0x125612f5aace120c, 0xcf3286f2dcd2dbea, 0x17903709d9d096c5], [0xb297d0ca7e5a7d96, 0xc14df4be7db51b3a, 0xcbc5cc4029ad550b, 0x21eab11894a46e77], [0x8b50e7d2d7962315, 0xa90b09729b18ff26, 0xba1b7cd0f1f2376c, 0x2c5dfa11f1707230], [0xeeeea26ac4b6068e, 0x15a18413d128158d, 0xde6616d038619971, 0x1d416b28ce446401]],
    };
    G2Affine::new(Fq2::new(n(c[0]), n(c[1])), Fq2::new(n(c[2]), n(c[3])), false)
}

/// Sets the proof and verifies it with a key for which the pairing equation holds; None: the proof is not even taken
fn verify(raw: &mut [u8; 259], a: G1Affine, b: G2Affine, c: G1Affine) -> Option<bool> {
    let g = G1Affine::prime_subgroup_generator();
    let x = (-(g.into_projective() + g.into_projective())).into_affine();
    let coeffs = G2Prepared::<Parameters>::from(G2Affine::prime_subgroup_generator()).ell_coeffs;
    let k = key_of(coeffs.clone(), coeffs.clone());
    let f = Bn254::miller_loop(&[
        (G1Prepared(a), G2Prepared::<Parameters>::from(b)),
        (G1Prepared(x), G2Prepared { ell_coeffs: coeffs.clone(), infinity: false }),
        (G1Prepared(c), G2Prepared { ell_coeffs: coeffs, infinity: false }),
    ]);
    let Some(r) = Bn254::final_exponentiation(&f) else { return None };
    k.source[..384].copy_from_slice(&bytes12(&r));
    let (d, at) = account();
    put(&mut d[at + 259..], &x.x); put(&mut d[at + 291..], &x.y);
    let Ok(proof) = <Proof as borsh::BorshDeserialize>::deserialize(&mut &raw[..]) else { return None };
    let (id, owner) = (Pubkey::new_from_array([7; 32]), Pubkey::new_from_array([0; 32]));
    let mut lamports = 0;
    let payer = AccountInfo::new(&id, true, true, &mut lamports, &mut [], &owner, false, 0);
    {
        let mut v = VerificationAccount::new(d).unwrap();
        v.set_state(&VerificationState::FeeTransferred);
        v.set_step(&VerificationStep::CombinedMillerLoop);
        v.set_other_data(&VerificationAccountData { fee_payer: RawU256::new(id.to_bytes()), ..Default::default() });
        if init_verification_proof(&payer, &mut v, 0, proof).is_err() { return None; }
    }
    for i in 0..COMBINED_MILLER_LOOP_IXS + FINAL_EXPONENTIATION_IXS {
        let vkey = VerifyingKey::new(k.source, 1).unwrap();
        let mut v = VerificationAccount::new(d).unwrap();
        match verify_partial(&mut v, &vkey, COMPUTE_VERIFICATION_IX_COUNT - 1) {
            Ok(None) => {}
            Ok(Some(r)) => { prop!(i + 1 == COMBINED_MILLER_LOOP_IXS + FINAL_EXPONENTIATION_IXS, "the result comes last"); return Some(r); }
            Err(_) => return None,
        }
    }
    prop!(false, "a verification has a result");
    None
}

#[no_mangle]
pub extern "C" fn c29_points() {
    let k: u8 = any();
    assume(k < 20);
    let k = pin(k as u64);
    let (g, h) = (G1Affine::prime_subgroup_generator(), G2Affine::prime_subgroup_generator());
    let g2 = (g.into_projective() + g.into_projective()).into_affine();
    let h2 = (h.into_projective() + h.into_projective()).into_affine();
    let (mut a, mut b, mut c) = if k == 1 { (g2, h2, -g) } else { (g, h, g2) };
    match k {
        2 => b = outside(0),
        3 => b = outside(1),
        4 => b = outside(2),
        5..=12 => {
            let x = fq();
            generic();
            match k { 5 => a.x = x, 6 => a.y = x, 7 => b.x.c0 = x, 8 => b.x.c1 = x, 9 => b.y.c0 = x, 10 => b.y.c1 = x, 11 => c.x = x, _ => c.y = x }
        }
        _ => {}
    }
    let mut raw = [0u8; 259];
    put(&mut raw, &a.x); put(&mut raw[32..], &a.y);
    put2(&mut raw[65..], &b.x); put2(&mut raw[129..], &b.y);
    put(&mut raw[194..], &c.x); put(&mut raw[226..], &c.y);
    match k {
        13 => unreduced(&mut raw[..]),
        14 => unreduced(&mut raw[32..]),
        15 => unreduced(&mut raw[65..]),
        16 => unreduced(&mut raw[129 + 32..]),
        17 => unreduced(&mut raw[194..]),
        18 => unreduced(&mut raw[226..]),
        19 => raw[193] = 1,
        _ => {}
    }
    let r = verify(&mut raw, a, b, c);
    if k < 2 {
        prop!(r == Some(true), "points of the groups are accepted");
        reach!("accepted");
        return;
    }
    if k < 5 { prop!(r != Some(true), "points of the second curve outside the group"); }
    else if k < 13 { prop!(r != Some(true), "points outside the curves"); }
    else if k < 19 { prop!(r != Some(true), "coordinates that are not reduced"); }
    else { prop!(r != Some(true), "B as the point at infinity"); }
    reach!("refused");
}
