//! The crate under test as it is compiled for the chain.
use aob_chain as aob;
include!("calls.inc");
