//! Stand-in for the patched anchor account type that is not available offline: anchor-lang 0.31.1's own
//! `UncheckedAccount` (copied from the registry) plus the accessor the patch adds.
pub mod unchecked_account;
