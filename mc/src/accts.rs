//! Free-form accounts: any key, owner, balance, length and content, any assignment of accounts to roles.
use crate::env::*;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError, pubkey::Pubkey};

#[derive(Clone, Debug, PartialEq)]
pub struct Acc { pub key: Pubkey, pub owner: Pubkey, pub lam: u64, pub data: Vec<u64>, pub len: usize, pub writable: bool }
pub fn rent_min(len: usize) -> u64 { solana_program::rent::Rent::default().minimum_balance(len) }
impl Acc {
    pub fn zero(k: u8, len: usize) -> Acc { Acc { key: key(k), owner: PROGRAM, lam: rent_min(len), data: vec![0; len.div_ceil(8)], len, writable: true } }
    pub fn b(&self) -> &[u8] { &bytemuck::cast_slice(&self.data)[..self.len] }
    pub fn bm(&mut self) -> &mut [u8] { let n = self.len; &mut bytemuck::cast_slice_mut(&mut self.data)[..n] }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Create { min: u64, tick: u64 }, Act(Act), Close }
impl Op {
    pub fn wire(&self, cb: usize) -> Vec<u8> {
        match self {
            Op::Create { min, tick } => { let mut d = vec![0]; d.extend(min.to_le_bytes()); d.extend(tick.to_le_bytes()); d }
            Op::Close => vec![4],
            Op::Act(a) => wire(a, cb),
        }
    }
    pub fn nroles(&self) -> usize { match self { Op::Close => 5, Op::Act(Act::Consume(_)) => 2, _ => 4 } }
    pub fn name(&self) -> &'static str { match self { Op::Create { .. } => "create", Op::Close => "close", Op::Act(Act::New(_)) => "new_order", Op::Act(Act::Cancel(_)) => "cancel_order", Op::Act(Act::Mass(_)) => "mass_cancel_orders", Op::Act(Act::Consume(_)) => "consume_events", _ => "?" } }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Direct, Entry }

/// Hand the accounts to `f` as the runtime would: one AccountInfo per account, shared between roles.
pub fn with_infos<R>(accs: &mut [Acc], reg: Option<&mut Acc>, f: impl FnOnce(&[AccountInfo]) -> R) -> Result<R, String> {
    let mut infos = Vec::with_capacity(accs.len());
    for a in accs.iter_mut().chain(reg) {
        let n = a.len;
        let d: &mut [u8] = &mut bytemuck::cast_slice_mut(&mut a.data)[..n];
        infos.push(AccountInfo::new(&a.key, false, a.writable, &mut a.lam, d, &a.owner, false, 0));
    }
    guarded(|| f(&infos))
}

/// Run `op` with `roles[i]` naming the account in the i-th place. No roll-back here.
pub fn invoke_raw<C: CbT>(accs: &mut [Acc], roles: &[usize], op: &Op, mode: Mode, reg: &mut [u8; REG_LEN]) -> Out where <C as CallbackInfo>::CallbackId: PartialEq {
    // only the accounts that take part
    let before = if crate::causes::on() {
        let first: Vec<usize> = (0..roles.len()).map(|k| roles.iter().position(|r| *r == roles[k]).unwrap()).collect();
        Some((roles.iter().map(|r| accs[*r].clone()).collect::<Vec<Acc>>(), first))
    } else { None };
    #[cfg(feature = "chain")]
    let (mut accs2, mut reg2) = (accs.to_vec(), *reg);
    let o = invoke_by(accs, roles, op, mode, reg, crate::calls::entry, crate::calls::direct::<C>);
    if let Some((b, r)) = before { crate::causes::judge::<C>(&b, &r, op, mode, &o, roles); }
    #[cfg(feature = "chain")]
    {
        let oc = invoke_by(&mut accs2, roles, op, mode, &mut reg2, crate::calls_chain::entry, C::c_direct);
        if !crate::chain::same(&o, &oc) { crate::chain::report(format!("{} on the accounts {roles:?} ends with {oc}, on the host with {o}", op.name())); }
        else if o.is_ok() && (accs2 != accs || reg2 != *reg) { crate::chain::report(format!("{} on the accounts {roles:?} leaves other account contents than on the host", op.name())); }
    }
    o
}
fn invoke_by(accs: &mut [Acc], roles: &[usize], op: &Op, mode: Mode, reg: &mut [u8; REG_LEN], entry: impl Fn(&[AccountInfo], &[u8]) -> ProgramResult, direct: impl Fn(&[&AccountInfo], &Op) -> Result<Option<Summ>, ProgramError>) -> Out {
    let res = match mode {
        Mode::Entry => {
            let data = op.wire(32);
            let mut ra = Acc { key: key(99), owner: PROGRAM, lam: 0, data: vec![0; REG_LEN / 8], len: REG_LEN, writable: true };
            ra.bm().copy_from_slice(reg);
            let r = with_infos(accs, Some(&mut ra), |i| {
                let v: Vec<AccountInfo> = roles.iter().chain(std::iter::once(&(i.len() - 1))).map(|r| i[*r].clone()).collect();
                entry(&v, &data)
            });
            reg.copy_from_slice(ra.b());
            r.map(|r| r.map(|_| decode_register(reg)))
        }
        Mode::Direct => with_infos(accs, None, |i| {
            let x: Vec<&AccountInfo> = roles.iter().map(|r| &i[*r]).collect();
            direct(&x, op)
        }),
    };
    match res { Ok(Ok(s)) => Out::Ok(s), Ok(Err(e)) => Out::Err(err_code(e)), Err(p) => Out::Panic(p) }
}

/// As the runtime does it: a failed instruction leaves no trace.
pub fn invoke<C: CbT>(accs: &mut [Acc], roles: &[usize], op: &Op, mode: Mode) -> Out where <C as CallbackInfo>::CallbackId: PartialEq {
    let snap: Vec<(usize, Acc)> = roles.iter().map(|r| (*r, accs[*r].clone())).collect();
    let mut reg = [0xEE; REG_LEN];
    let o = invoke_raw::<C>(accs, roles, op, mode, &mut reg);
    if !o.is_ok() { for (r, a) in snap { accs[r] = a; } }
    o
}

/// Fresh, zeroed, rent-exempt accounts for a market: [market, queue, bids, asks, target].
pub fn fresh(base: u8, cb: usize, eqc: usize, bidc: usize, askc: usize) -> Vec<Acc> {
    vec![Acc::zero(base, MARKET_LEN), Acc::zero(base + 1, eq_len(eqc, cb)), Acc::zero(base + 2, slab_len(bidc, cb)), Acc::zero(base + 3, slab_len(askc, cb)),
        Acc { key: key(base + 4), owner: Pubkey::default(), lam: 7, data: vec![], len: 0, writable: true }]
}

/// Split an exploration buffer into accounts.
pub fn from_buf(buf: &[u64], lay: &Lay) -> Vec<Acc> {
    let b: &[u8] = bytemuck::cast_slice(buf);
    let parts = lay.parts(b);
    let mut v: Vec<Acc> = (0..4).map(|k| {
        let s = parts[k];
        let mut a = Acc::zero([K_MARKET, K_EQ, K_BIDS, K_ASKS][k], s.len());
        a.bm().copy_from_slice(s);
        a
    }).collect();
    v.push(Acc { key: key(50), owner: Pubkey::default(), lam: 1, data: vec![], len: 0, writable: true });
    v
}
