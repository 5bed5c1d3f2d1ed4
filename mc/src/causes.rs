//! C29: whatever an instruction is refused for is really so. Judged on the accounts as they were handed in; where
//! several causes hold, any of them may be named.
use crate::accts::*;
use crate::decode::*;
use crate::env::*;
use crate::spec::*;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use solana_program::program_error::ProgramError;
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub static ON: AtomicBool = AtomicBool::new(false);
pub static JUDGED: AtomicU64 = AtomicU64::new(0);
thread_local! { static BAD: RefCell<Option<String>> = RefCell::new(None); }
pub const MARK: &str = "refused without cause: ";
pub fn on() -> bool { ON.load(Ordering::Relaxed) }
pub fn report(m: String) { BAD.with(|d| { d.borrow_mut().get_or_insert(format!("{MARK}{m}")); }) }
pub fn take() -> Option<String> { BAD.with(|d| d.borrow_mut().take()) }

pub const MALFORMED: ProgramError = ProgramError::InvalidInstructionData;
fn is(code: u64, e: ProgramError) -> bool { code == u64::from(e) }
fn tag(b: &[u8]) -> Option<u64> { if b.len() < 8 { None } else { Some(u64at(b, 0)) } }

/// What the three accounts beside the market hold, if their lengths are those of a queue and two sides.
fn contents(a: [&Acc; 3], cb: usize) -> Option<(View, Lay)> {
    let cap = |n: usize| if n >= slab_len(1, cb) && (n - slab_len(1, cb)) % (56 + cb) == 0 { Some((n - slab_len(1, cb)) / (56 + cb) + 1) } else { None };
    if a[0].len <= 32 || (a[0].len - 32) % (40 + 2 * cb) != 0 { return None; }
    let lay = Lay { cb, eqc: (a[0].len - 32) / (40 + 2 * cb), bidc: cap(a[1].len)?, askc: cap(a[2].len)? };
    let q = a[0].b();
    let mut v = View { head: u64at(q, 8), count: u64at(q, 16), seq: u64at(q, 24), ..View::default() };
    v.bids = RawSlab { b: a[1].b(), cap: lay.bidc, cb }.orders().ok()?;
    v.asks = RawSlab { b: a[2].b(), cap: lay.askc, cb }.orders().ok()?;
    v.q = queue(q, cb, lay.eqc).ok()?;
    Some((v, lay))
}

/// Does the cause named by `code` hold? `accs` as they were before.
pub fn holds<C: CbT>(accs: &[Acc], roles: &[usize], op: &Op, code: u64) -> bool where <C as CallbackInfo>::CallbackId: PartialEq {
    let cb = std::mem::size_of::<C>();
    let a = |r: usize| roles.get(r).map(|x| &accs[*x]);
    let creating = matches!(op, Op::Create { .. });
    let named = roles.len().min(op.nroles()).min(4);
    let aliased = || (0..named).any(|x| (0..x).any(|y| roles[x] == roles[y]));
    let market = a(0).map(|m| m.b()).filter(|m| m.len() >= MARKET_LEN);
    let wrong_key = |r: usize| !creating && a(r).zip(market).map_or(false, |(x, m)| x.key.to_bytes()[..] != m[8 + 32 * (r - 1)..][..32]);
    let wrong_owner = |r: usize| a(r).map_or(false, |x| x.owner != PROGRAM);
    // the market's and the queue's tag is a word, the sides' a byte
    let wrong_tag = |r: usize| a(r).map_or(false, |x| tag(x.b()).map_or(true, |t| t != if creating { 0 } else { 128 + r as u64 }));
    match code {
        3 if roles.len() > 1 => wrong_key(1),
        1 if named > 2 => wrong_key(2),
        2 if named > 3 => wrong_key(3),
        13 => wrong_owner(1),
        14 if named > 2 => wrong_owner(2),
        15 if named > 3 => wrong_owner(3),
        16 => wrong_owner(0),
        E_TAG => (0..named).any(wrong_tag) || aliased(),
        c if is(c, ProgramError::AccountAlreadyInitialized) || c == 0 => creating && ((0..named).any(wrong_tag) || aliased()),
        c if is(c, ProgramError::AccountBorrowFailed) => aliased(),
        c if is(c, ProgramError::NotEnoughAccountKeys) => roles.len() < op.nroles(),
        c if is(c, ProgramError::InvalidArgument) => matches!(op, Op::Create { min, tick } if *min == 0 || *tick == 0),
        c if is(c, ProgramError::AccountNotRentExempt) => creating && (0..named).any(|r| a(r).map_or(false, |x| x.lam < rent_min(x.len))),
        c if is(c, ProgramError::InvalidAccountData) || is(c, ProgramError::AccountDataTooSmall) => (0..named).any(|r| a(r).map_or(false, |x| match r {
            0 => x.len != MARKET_LEN,
            1 => x.len < eq_len(5, cb) || (x.len - 32) % (40 + 2 * cb) != 0,
            _ => x.len < slab_len(1, cb) || (x.len - slab_len(1, cb)) % (56 + cb) != 0,
        })),
        5 | E_NOTFOUND | E_SELF | E_ACTIVE | E_PRICE | 22 => {
            let Some(m) = market else { return false };
            let (min, tick) = (u64at(m, 104), u64at(m, 112));
            match op { // what does not depend on the book
                Op::Act(Act::New(p)) if code == E_PRICE => return tick == 0 || p.price % tick != 0 || (p.post_allowed && p.price < tick),
                Op::Act(Act::New(_)) if matches!(code, 5 | E_SELF) => {}
                Op::Act(Act::Cancel(_) | Act::Mass(_)) if matches!(code, E_NOTFOUND | 22) => {}
                Op::Close if code == E_ACTIVE => {}
                _ => return false,
            }
            let (Some(q), Some(b), Some(k)) = (a(1), a(2), a(3)) else { return false };
            // accounts that are not a market's are not judged by their contents
            let Some((v, lay)) = contents([q, b, k], cb) else { return true };
            match op {
                Op::Close => !v.bids.is_empty() || !v.asks.is_empty() || !v.q.is_empty(),
                Op::Act(Act::Cancel(id)) => cancel_cause(&v, &[*id], code),
                Op::Act(Act::Mass(ids)) => cancel_cause(&v, ids, code),
                Op::Act(Act::New(p)) => {
                    if tick == 0 || p.price % tick != 0 { return true; }
                    let mut g: Vec<(u64, u128)> = v.bids.iter().map(|o| (!(o.id as u64), o.id)).chain(v.asks.iter().map(|o| (o.id as u64, o.id))).collect();
                    g.sort();
                    let g: Ghost = g.into_iter().map(|x| x.1).collect();
                    spec_new::<C>(&Cfg { lay, tick, min }, &v, &g, p).res == Err(code)
                }
                _ => false,
            }
        }
        _ => false,
    }
}

/// Is some id not resting (or named twice), or are the totals too large?
pub fn cancel_cause(v: &View, ids: &[u128], code: u64) -> bool {
    let mut seen: rustc_hash::FxHashSet<u128> = Default::default();
    let (mut missing, mut tb, mut tq) = (false, 0u128, 0u128);
    let ix = Idx::new(v);
    for id in ids {
        match ix.get(*id) {
            Some(o) if seen.insert(*id) => { tb += o.qty as u128; tq += mul_floor(o.qty, o.price()); }
            _ => missing = true,
        }
    }
    if code == E_NOTFOUND { missing } else { code == 22 && tb.max(tq) > u64::MAX as u128 }
}

/// Called with the accounts as they were, when `op` has been refused.
pub fn judge<C: CbT>(accs: &[Acc], roles: &[usize], op: &Op, mode: Mode, o: &Out, names: &[usize]) where <C as CallbackInfo>::CallbackId: PartialEq {
    if let Out::Err(code) = o {
        JUDGED.fetch_add(1, Ordering::Relaxed);
        let ok = if mode == Mode::Entry { holds::<[u8; 32]>(accs, roles, op, *code) } else { holds::<C>(accs, roles, op, *code) };
        if !ok { report(format!("{} on the accounts {names:?} ended with {o}, which is not so", op.name())); }
    }
}
