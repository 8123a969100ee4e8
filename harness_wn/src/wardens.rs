//! Wardens and the accounts of the warden network
use crate::env::*;
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv_types::accounts::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv_types::bytes::{BorshSerDeSized, ElusivOption};
use elusiv_types::TOKENS;
use elusiv_warden_network::warden::*;
use solana_program::pubkey::Pubkey;

pub fn string<const N: usize>(b: &[u8]) -> FixedLenString<N> where FixedLenString<N>: BorshDeserialize + BorshSerDeSized {
    let d = bytes(<FixedLenString<N> as BorshSerDeSized>::SIZE);
    d[0] = b.len() as u8;
    d[8..8 + b.len()].copy_from_slice(b);
    FixedLenString::<N>::deserialize(&mut &d[..]).unwrap()
}
pub fn region(n: u8) -> WardenRegion {
    match n { 0 => WardenRegion::Africa, 1 => WardenRegion::America, 2 => WardenRegion::Antarctica, 3 => WardenRegion::Asia, 4 => WardenRegion::Australia, 5 => WardenRegion::Europe, _ => WardenRegion::Other }
}
pub fn timezone(area: u8, l: &[u8]) -> Timezone { Timezone { area, location: string::<14>(l) } }
pub fn config(k: Pubkey, operator: Option<Pubkey>, fill: &[u8; 16], r: u8, flags: u16) -> ElusivBasicWardenConfig {
    let bit = |n: u16| flags >> n & 1 == 1;
    let mut tokens = [false; TOKENS.len()];
    for i in 0..TOKENS.len() { tokens[i] = bit(6 + i as u16); }
    ElusivBasicWardenConfig {
        ident: string::<256>(&fill[..8]),
        key: k,
        operator: operator.into(),
        addr: std::net::Ipv4Addr::new(fill[0], fill[1], fill[2], fill[3]),
        rpc_port: u16::from_le_bytes([fill[4], fill[5]]),
        tls_mode: TlsMode::Optional,
        uses_proxy: bit(0),
        jurisdiction: u16::from_le_bytes([fill[6], fill[7]]),
        timezone: timezone(fill[8], &fill[9..12]),
        region: region(r),
        version: [fill[9] as u16, 7, fill[10] as u16],
        platform: string::<256>(&fill[4..]),
        warden_features: WardenFeatures { apa: bit(1), attestation: bit(2) },
        basic_warden_features: BasicWardenFeatures { rpc: bit(3), relay: bit(4), instant_relay: bit(5) },
        tokens,
    }
}
pub fn warden(c: ElusivBasicWardenConfig) -> ElusivBasicWarden {
    ElusivBasicWarden { config: c, lut: key(99), asn: ElusivOption::Some(77), is_operator_confirmed: false, is_metadata_valid: ElusivOption::None, is_active: false, join_timestamp: 5, activation_timestamp: 6 }
}
pub fn enc<T: BorshSerialize>(x: &T) -> Vec<u8> { x.try_to_vec().unwrap() }
/// The bytes of an account of a warden
pub fn warden_data(w: &ElusivBasicWarden) -> &'static mut [u8] {
    let d = bytes(<BasicWardenAccount as SizedAccount>::SIZE);
    let e = enc(w);
    let n = d.len();
    d[n - e.len()..].copy_from_slice(&e);
    d
}
/// The warden stored in an account, as bytes
pub fn stored(d: &[u8]) -> &[u8] { &d[d.len() - <ElusivBasicWarden as BorshSerDeSized>::SIZE..] }
pub fn view(d: &'static mut [u8]) -> (BasicWardenAccount<'static>, &'static [u8]) {
    let v = unsafe { std::slice::from_raw_parts(d.as_ptr(), d.len()) };
    (BasicWardenAccount::new(d).unwrap(), v)
}
pub fn unverified(a: Info) -> elusiv_types::UnverifiedAccountInfo<'static, 'static> { elusiv_types::UnverifiedAccountInfo::new(a) }
