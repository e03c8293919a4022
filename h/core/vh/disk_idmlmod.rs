//! makes the IDML's harness reachable
pub use super::idml::vh_disk::{array, disks, idml as make, reopen_idml as reopen, bytes};
