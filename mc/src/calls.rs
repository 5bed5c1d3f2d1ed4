//! The crate under test.
use asset_agnostic_orderbook as aob;
include!("calls.inc");
