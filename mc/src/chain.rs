//! C28: every call is made a second time on the code as it is compiled for the chain, from the same bytes.
use crate::accts::*;
use crate::decode::*;
use crate::env::*;
use crate::spec::*;
use crate::monitor::*;
use solana_program::account_info::AccountInfo;
use solana_program::program_error::ProgramError;
use std::cell::RefCell;

thread_local! { static DIFF: RefCell<Option<String>> = RefCell::new(None); }
pub const MARK: &str = "built for the chain: ";
pub fn report(m: String) { DIFF.with(|d| { d.borrow_mut().get_or_insert(format!("{MARK}{m}")); }) }
pub fn take() -> Option<String> { DIFF.with(|d| d.borrow_mut().take()) }

/// The chain's side of the calls, for one callback type.
pub trait ChainT {
    fn c_run(bytes: &mut [u8], lay: &Lay, a: &Act, entry: bool) -> Out;
    fn c_create(bytes: &mut [u8], lay: &Lay, tick: u64, min: u64) -> Out;
    fn c_direct(i: &[&AccountInfo], op: &Op) -> Result<Option<Summ>, ProgramError>;
    fn c_read(cfg: &Cfg, buf: &[u64], pre: &View, g: &Ghost) -> Result<(), (Vec<usize>, String)>;
}
macro_rules! chain_side { ($t:ty $(, $n:ident)?) => {
    impl $(<const $n: usize>)? ChainT for $t {
        fn c_run(bytes: &mut [u8], lay: &Lay, a: &Act, entry: bool) -> Out { crate::calls_chain::run::<$t>(bytes, lay, a, entry) }
        fn c_create(bytes: &mut [u8], lay: &Lay, tick: u64, min: u64) -> Out { crate::calls_chain::create::<$t>(bytes, lay, tick, min) }
        fn c_direct(i: &[&AccountInfo], op: &Op) -> Result<Option<Summ>, ProgramError> { crate::calls_chain::direct::<$t>(i, op) }
        #[cfg(feature = "readers")]
        fn c_read(cfg: &Cfg, buf: &[u64], pre: &View, g: &Ghost) -> Result<(), (Vec<usize>, String)> { crate::readside_chain::read_side::<$t>(cfg, buf, pre, g, &[], &[], 0, &mut Judge::default()) }
        #[cfg(not(feature = "readers"))]
        fn c_read(_: &Cfg, _: &[u64], _: &View, _: &Ghost) -> Result<(), (Vec<usize>, String)> { Ok(()) }
    }
} }
chain_side!(Cb16);
chain_side!(Cb24);
chain_side!([u8; 32]);
chain_side!(CbN<N>, N);
chain_side!(Cb0);

pub fn same(a: &Out, b: &Out) -> bool { match (a, b) { (Out::Panic(_), Out::Panic(_)) => true, (x, y) => x == y } }
/// Host: `after` and `oh` from `before`; the same call on the chain's build.
pub fn compare(before: &mut [u64], after: &[u64], oh: &Out, what: &dyn Fn() -> String, f: impl FnOnce(&mut [u64]) -> Out) {
    let oc = f(before);
    if !same(oh, &oc) { report(format!("{} ends with {oc}, on the host with {oh}", what())); }
    else if oh.is_ok() && before != after { report(format!("{} leaves other account contents than on the host (first at word {:?})", what(), before.iter().zip(after).position(|(a, b)| a != b))); }
}

/// The read-side functions on one state, host against chain.
pub fn readers<C: CbT>(cfg: &Cfg, buf: &[u64], pre: &View, g: &Ghost) where <C as asset_agnostic_orderbook::state::orderbook::CallbackInfo>::CallbackId: PartialEq {
    #[cfg(feature = "readers")]
    if let (Ok(()), Err((_, m))) = (crate::readside::read_side::<C>(cfg, buf, pre, g, &[], &[], 0, &mut Judge::default()), C::c_read(cfg, buf, pre, g)) { report(m); }
}
