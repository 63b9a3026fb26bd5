#![allow(clippy::all)]
pub mod vp;

macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $f() { $m::$f() } )*
        pub static TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($f), $f) ),* ];
    };
}
mod digest;
mod block;
mod mac;
mod modes;
mod zuc;
harnesses! {
    digest::h_digest, digest::h_split, digest::h_reuse, digest::h_xof, digest::h_bits,
    block::h_block, block::h_key,
    mac::h_hmac, mac::h_hmac_hist, mac::h_hmac_real, mac::h_cmac, mac::h_cmac_hist, mac::h_cmac_real,
    modes::h_mode_enc, modes::h_mode_dec, modes::h_stream, modes::h_stream_any, modes::h_pad, modes::h_unpad, modes::h_iv, modes::h_mode_new,
    zuc::h_zuc, zuc::h_zuc_len, zuc::h_eea3, zuc::h_eea3_round, zuc::h_eia3, zuc::h_eia3_hist,
}
