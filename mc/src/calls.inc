// Calls into the crate, named `aob` by the including module: once the crate as the host compiles it, once as the chain does.
use aob::instruction::{cancel_order, close_market, consume_events, create_market, mass_cancel_orders, new_order};
use aob::state::orderbook::{CallbackInfo, OrderSummary};
#[cfg(feature = "readers")]
use aob::state::{critbit::Slab, AccountTag};
use aob::state::{SelfTradeBehavior, Side};
use crate::accts::Op;
use crate::env::{err_code, guarded, key, wire, decode_register, Act, CbData, Lay, NewP, Out, Summ, E_NOTFOUND, K_ASKS, K_BIDS, K_EQ, K_MARKET, PROGRAM, REG_LEN};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError};

pub fn to_stb(b: u8) -> SelfTradeBehavior {
    match b { 0 => SelfTradeBehavior::DecrementTake, 1 => SelfTradeBehavior::CancelProvide, _ => SelfTradeBehavior::AbortTransaction }
}
pub fn to_side(bid: bool) -> Side { if bid { Side::Bid } else { Side::Ask } }
fn summ(s: OrderSummary) -> Summ { Summ { id: s.posted_order_id, base: s.total_base_qty, quote: s.total_quote_qty, posted: s.total_base_qty_posted } }

fn new_params<C: CbData>(p: &NewP) -> new_order::Params<C> {
    new_order::Params {
        max_base_qty: p.base, max_quote_qty: p.quote, limit_price: p.price, side: to_side(p.bid), match_limit: p.limit,
        callback_info: C::from_w(&p.cb), post_only: p.post_only, post_allowed: p.post_allowed, self_trade_behavior: to_stb(p.stb),
    }
}

/// The processor of `op` on the accounts `i`: market, event queue, bids, asks, target.
pub fn direct<C: CbData + CallbackInfo>(i: &[&AccountInfo], op: &Op) -> Result<Option<Summ>, ProgramError> where <C as CallbackInfo>::CallbackId: PartialEq {
    match op {
        Op::Create { min, tick } => create_market::process::<C>(&PROGRAM, create_market::Accounts { market: i[0], event_queue: i[1], bids: i[2], asks: i[3] }, create_market::Params { min_base_order_size: *min, tick_size: *tick }).map(|_| None),
        Op::Close => close_market::process::<C>(&PROGRAM, close_market::Accounts { market: i[0], event_queue: i[1], bids: i[2], asks: i[3], lamports_target_account: i[4] }, close_market::Params {}).map(|_| None),
        Op::Act(a) => act::<C>(i, a),
    }
}
fn act<C: CbData + CallbackInfo>(i: &[&AccountInfo], a: &Act) -> Result<Option<Summ>, ProgramError> where <C as CallbackInfo>::CallbackId: PartialEq {
    match a {
        Act::New(p) => new_order::process::<C>(&PROGRAM, new_order::Accounts { market: i[0], event_queue: i[1], bids: i[2], asks: i[3] }, new_params(p)).map(|s| Some(summ(s))),
        Act::Cancel(id) => cancel_order::process::<C>(&PROGRAM, cancel_order::Accounts { market: i[0], event_queue: i[1], bids: i[2], asks: i[3] }, cancel_order::Params { order_id: *id }).map(|s| Some(summ(s))),
        Act::Mass(v) => mass_cancel_orders::process::<C>(&PROGRAM, mass_cancel_orders::Accounts { market: i[0], event_queue: i[1], bids: i[2], asks: i[3] }, mass_cancel_orders::Params { order_ids: v.clone() }).map(|s| Some(summ(s))),
        Act::Consume(n) => consume_events::process::<C>(&PROGRAM, consume_events::Accounts { market: i[0], event_queue: i[1] }, consume_events::Params { number_of_entries_to_consume: *n }).map(|_| None),
        Act::Seq(_) | Act::Put(..) | Act::Del(..) => unreachable!(),
    }
}
/// The program's entry point.
pub fn entry(i: &[AccountInfo], data: &[u8]) -> ProgramResult { aob::entrypoint::process_instruction(&PROGRAM, i, data) }

/// One action on the accounts held in `bytes`. Through the entry point the callback type is [u8; 32].
pub fn run<C: CbData + CallbackInfo>(bytes: &mut [u8], lay: &Lay, a: &Act, via_entry: bool) -> Out where <C as CallbackInfo>::CallbackId: PartialEq {
    #[cfg(feature = "readers")]
    if let Act::Del(bid, id) = a {
        let [_, _, b, k] = lay.parts_mut(bytes);
        let sl = if *bid { b } else { k };
        let r = guarded(|| {
            let mut s = Slab::<C>::from_buffer(sl, if *bid { AccountTag::Bids } else { AccountTag::Asks }).map_err(err_code)?;
            let r = s.remove_by_key(*id).map(|(l, c)| (l.order_id(), l.base_quantity, *c));
            Ok::<_, u64>(r)
        });
        return match r {
            Ok(Ok(None)) => Out::Err(E_NOTFOUND),
            Ok(Ok(Some((i, q, c)))) => {
                let w = crate::env::w_of(bytemuck::bytes_of(&c));
                // the summary is only a carrier here: id, quantity and a fingerprint of the callback information
                Out::Ok(Some(Summ { id: Some(i), base: q, quote: w[0] ^ w[1] ^ w[2] ^ w[3], posted: 0 }))
            }
            Ok(Err(e)) => Out::Err(e),
            Err(p) => Out::Panic(p),
        };
    }
    let [m, q, b, k] = lay.parts_mut(bytes);
    let (km, kq, kb, ka) = (key(K_MARKET), key(K_EQ), key(K_BIDS), key(K_ASKS));
    let mut lam = [u64::MAX / 16; 5];
    let [l0, l1, l2, l3, l4] = &mut lam;
    let im = AccountInfo::new(&km, false, false, l0, m, &PROGRAM, false, 0);
    let iq = AccountInfo::new(&kq, false, true, l1, q, &PROGRAM, false, 0);
    let ib = AccountInfo::new(&kb, false, true, l2, b, &PROGRAM, false, 0);
    let ia = AccountInfo::new(&ka, false, true, l3, k, &PROGRAM, false, 0);
    let res = if via_entry {
        let kr = key(99);
        let mut reg = [0xEEu8; REG_LEN];
        let ir = AccountInfo::new(&kr, false, true, l4, &mut reg, &PROGRAM, false, 0);
        let data = wire(a, std::mem::size_of::<C>());
        let res = match a {
            Act::Consume(_) => guarded(|| entry(&[im, iq, ir.clone()], &data)),
            _ => guarded(|| entry(&[im, iq, ib, ia, ir.clone()], &data)),
        };
        drop(ir);
        res.map(|r| r.map(|_| decode_register(&reg)))
    } else {
        guarded(|| act::<C>(&[&im, &iq, &ib, &ia], a))
    };
    match res { Ok(Ok(s)) => Out::Ok(s), Ok(Err(e)) => Out::Err(err_code(e)), Err(p) => Out::Panic(p) }
}

/// create_market on the zeroed accounts in `bytes`.
pub fn create<C: CbData + CallbackInfo>(bytes: &mut [u8], lay: &Lay, tick: u64, min: u64) -> Out where <C as CallbackInfo>::CallbackId: PartialEq {
    let [m, q, b, k] = lay.parts_mut(bytes);
    let (km, kq, kb, ka) = (key(K_MARKET), key(K_EQ), key(K_BIDS), key(K_ASKS));
    let mut lam = [u64::MAX / 16; 4];
    let [l0, l1, l2, l3] = &mut lam;
    let im = AccountInfo::new(&km, false, true, l0, m, &PROGRAM, false, 0);
    let iq = AccountInfo::new(&kq, false, true, l1, q, &PROGRAM, false, 0);
    let ib = AccountInfo::new(&kb, false, true, l2, b, &PROGRAM, false, 0);
    let ia = AccountInfo::new(&ka, false, true, l3, k, &PROGRAM, false, 0);
    match guarded(|| direct::<C>(&[&im, &iq, &ib, &ia], &Op::Create { min, tick })) { Ok(Ok(s)) => Out::Ok(s), Ok(Err(e)) => Out::Err(err_code(e)), Err(p) => Out::Panic(p) }
}
