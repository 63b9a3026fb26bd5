pub use crate::bigint::ParseErrKind;
