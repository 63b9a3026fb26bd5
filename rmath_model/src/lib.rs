//! Stand-in for the `rmath` dependency while rcrypto is encoded: the public interface and the sharing
//! behaviour of its `BigInt`/`Nat` (clones share one number, `op=` changes it in place), with each
//! number being a handle to a term of the executor. The native replays use the real `rmath`.
#![allow(clippy::all)]
pub mod bigint;
pub mod parse_err;
pub mod rand;
