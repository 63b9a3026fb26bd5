#![allow(clippy::all)]
pub mod vp;

macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $f() { $m::$f() } )*
        pub static TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($f), $f) ),* ];
    };
}
mod keys;
mod num;
mod dsa;
mod ec;
mod limb;
mod rsa;
harnesses! {
    limb::h_p224, limb::h_p224_least, limb::h_p224_number, limb::h_p256, limb::h_p256_number,
    ec::h_key_ec, ec::h_key_ecdsa, dsa::h_key_dsa,
    ec::h_ec, ec::h_ecdsa_sign, ec::h_ecdsa_ver,
    dsa::h_dsa_sign, dsa::h_dsa_ver,
    rsa::h_rsa, rsa::h_oaep_enc, rsa::h_oaep_dec, rsa::h_oaep_len,
    rsa::h_p1_enc, rsa::h_p1_dec, rsa::h_p1_len, rsa::h_p1_sign, rsa::h_p1_ver, rsa::h_p1_alt, rsa::h_p1_other,
    rsa::h_pss_sign, rsa::h_pss_ver, rsa::h_pss_alt,
}
