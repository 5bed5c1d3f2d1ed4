use asset_agnostic_orderbook as aob;
include!("readside.inc");
