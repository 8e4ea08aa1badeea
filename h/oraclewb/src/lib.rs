// The oracle service itself, as it is in /repo, with the harness as a child module.
include!("/repo/vrf-oracle/src/main.rs");
pub mod wb;
pub mod stats;
pub mod laser;
pub mod clock;
