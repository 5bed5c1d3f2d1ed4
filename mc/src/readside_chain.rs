use aob_chain as aob;
include!("readside.inc");
