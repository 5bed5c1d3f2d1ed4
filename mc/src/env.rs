//! Execution environment: runs the real instruction processors of the crate over in-memory accounts,
//! with the roll-back-on-failure rule of the Solana runtime supplied by the caller.
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use borsh::{BorshDeserialize, BorshSerialize};
use bytemuck::{Pod, Zeroable};
use solana_program::{program_error::ProgramError, pubkey::Pubkey};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- runtime stubs

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn init() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        if ENGINE_PANIC.with(|e| *e.borrow()) { eprintln!("engine panic: {m} at {l}"); }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}
// ---------------------------------------------------------------- heartbeat

/// One counter for each thread that calls the code under test: odd while a call is running.
const BEATS: usize = 1024;
#[repr(align(64))]
struct Line(std::sync::atomic::AtomicU64);
#[allow(clippy::declare_interior_mutable_const)]
const LINE: Line = Line(std::sync::atomic::AtomicU64::new(0));
static BEAT: [Line; BEATS] = [LINE; BEATS];
static NEXT_BEAT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local! { static MY_BEAT: usize = NEXT_BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % BEATS; }
struct Beat(Option<usize>);
impl Beat {
    fn start() -> Beat {
        use std::sync::atomic::Ordering::Relaxed;
        let k = MY_BEAT.with(|k| *k);
        // a call within a call, or a slot another thread holds: the outer one counts
        let v = BEAT[k].0.load(Relaxed);
        if v & 1 == 1 { return Beat(None); }
        BEAT[k].0.store(v + 1, Relaxed);
        Beat(Some(k))
    }
}
impl Drop for Beat { fn drop(&mut self) { if let Some(k) = self.0 { BEAT[k].0.store(BEAT[k].0.load(std::sync::atomic::Ordering::Relaxed) + 1, std::sync::atomic::Ordering::Relaxed); } } }

/// Calls `f` when a single call of the code under test has been running for `secs` seconds, wherever it was made.
/// Counted in samples of its own rather than on the clock, so that a pause of the whole machine is not mistaken for one.
pub fn watch_calls(secs: u64, f: impl Fn() + Send + 'static) {
    use std::sync::atomic::Ordering::Relaxed;
    std::thread::spawn(move || {
        let mut last = vec![(0u64, 0u64); BEATS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            for k in 0..NEXT_BEAT.load(Relaxed).min(BEATS) {
                let x = BEAT[k].0.load(Relaxed);
                if x & 1 == 1 && x == last[k].0 { last[k].1 += 1; if last[k].1 > secs * 4 { f(); } } else { last[k] = (x, 0); }
            }
        }
    });
}

thread_local! { static ENGINE_PANIC: RefCell<bool> = RefCell::new(true); }

/// Run code under test; a panic is a result, not an engine failure.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    ENGINE_PANIC.with(|e| *e.borrow_mut() = false);
    let _beat = Beat::start();
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()));
    ENGINE_PANIC.with(|e| *e.borrow_mut() = true);
    r
}

// ---------------------------------------------------------------- callback types

pub type CbW = [u64; 4];

pub trait CbData: Pod + PartialEq + BorshSerialize + BorshDeserialize + Send + Sync + 'static {
    const NAME: &'static str;
    fn from_w(w: &CbW) -> Self;
    fn same_owner(a: &CbW, b: &CbW) -> bool;
    fn mk(owner: u64, tag: u64) -> CbW;
}
#[cfg(feature = "chain")]
pub use crate::chain::ChainT;
#[cfg(not(feature = "chain"))]
pub trait ChainT {}
#[cfg(not(feature = "chain"))]
impl<T> ChainT for T {}
pub trait CbT: CbData + CallbackInfo + ChainT where <Self as CallbackInfo>::CallbackId: PartialEq {}
impl<T: CbData + CallbackInfo + ChainT> CbT for T where <T as CallbackInfo>::CallbackId: PartialEq {}
/// The identifier of a callback type, for the crate as the host and as the chain compiles it.
macro_rules! identified { ($t:ty, $id:ty, |$s:ident| $e:expr $(, $n:ident)?) => {
    impl $(<const $n: usize>)? CallbackInfo for $t { type CallbackId = $id; fn as_callback_id(&self) -> &$id { let $s = self; $e } }
    #[cfg(feature = "chain")]
    impl $(<const $n: usize>)? aob_chain::state::orderbook::CallbackInfo for $t { type CallbackId = $id; fn as_callback_id(&self) -> &$id { let $s = self; $e } }
} }
/// What the bytes beyond the 32nd of a longer callback information hold.
pub fn tail(w: &CbW, k: usize) -> u8 { bytemuck::bytes_of(w)[k % 32] ^ ((k / 32) as u8).wrapping_mul(37) }
/// Callback information as compared everywhere: its first 32 bytes, spoiled if what follows is not what belongs to them.
pub fn w_of(b: &[u8]) -> CbW {
    let mut w = [0u64; 4];
    let n = b.len().min(32);
    bytemuck::bytes_of_mut(&mut w)[..n].copy_from_slice(&b[..n]);
    for k in 32..b.len() { if b[k] != tail(&w, k) { return [!w[0], !w[1], k as u64, b[k] as u64]; } }
    w
}

/// 16 bytes of callback information whose identifier is only the first half.
#[derive(Clone, Copy, PartialEq, Debug, Pod, Zeroable, BorshSerialize, BorshDeserialize)]
#[repr(C)]
pub struct Cb16 { pub id: u64, pub tag: u64 }
identified!(Cb16, u64, |s| &s.id);
pub const OWN: u64 = 0x0101_0101_0101_0101;
pub fn owner_word(o: u64) -> u64 {
    match o { 0 => OWN, 1 => OWN ^ (1 << 63), 2 => OWN ^ 1, 3 => OWN ^ (1 << 32), n => OWN.wrapping_add(n << 8) }
}
impl CbData for Cb16 {
    const NAME: &'static str = "Cb16";
    fn from_w(w: &CbW) -> Self { Cb16 { id: w[0], tag: w[1] } }
    fn same_owner(a: &CbW, b: &CbW) -> bool { a[0] == b[0] }
    fn mk(owner: u64, tag: u64) -> CbW { [owner_word(owner), tag, 0, 0] }
}
impl CbData for [u8; 32] {
    const NAME: &'static str = "B32";
    fn from_w(w: &CbW) -> Self { bytemuck::cast(*w) }
    fn same_owner(a: &CbW, b: &CbW) -> bool { a == b }
    // the identifier is the whole content: one content per owner, differing in one byte at the end
    fn mk(owner: u64, _tag: u64) -> CbW { [0xabcd, 0x1111_2222_3333_4444, 7, owner << 56 | 5] }
}
/// 24 bytes of callback information: payload first, identifier in the last two words.
#[derive(Clone, Copy, PartialEq, Debug, Pod, Zeroable, BorshSerialize, BorshDeserialize)]
#[repr(C)]
pub struct Cb24 { pub pay: u64, pub id: [u64; 2] }
identified!(Cb24, [u64; 2], |s| &s.id);
impl CbData for Cb24 {
    const NAME: &'static str = "Cb24";
    fn from_w(w: &CbW) -> Self { Cb24 { pay: w[0], id: [w[1], w[2]] } }
    fn same_owner(a: &CbW, b: &CbW) -> bool { a[1] == b[1] && a[2] == b[2] }
    // owners 0 and 1 differ in the last word only, 0 and 2 in the first only
    fn mk(owner: u64, tag: u64) -> CbW { match owner { 1 => [tag, OWN, owner_word(1), 0], o => [tag, owner_word(o), OWN, 0] } }
}

/// N bytes of callback information, identified by the first byte.
#[derive(Clone, Copy, PartialEq)]
#[repr(transparent)]
pub struct CbN<const N: usize>(pub [u8; N]);
unsafe impl<const N: usize> Zeroable for CbN<N> {}
unsafe impl<const N: usize> Pod for CbN<N> {}
impl<const N: usize> BorshSerialize for CbN<N> { fn serialize<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> { w.write_all(&self.0) } }
impl<const N: usize> BorshDeserialize for CbN<N> { fn deserialize_reader<R: std::io::Read>(r: &mut R) -> std::io::Result<Self> { let mut b = [0; N]; r.read_exact(&mut b)?; Ok(CbN(b)) } }
identified!(CbN<N>, [u8; 1], |s| s.0[..1].try_into().unwrap(), N);
impl<const N: usize> CbData for CbN<N> {
    const NAME: &'static str = "CbN";
    fn from_w(w: &CbW) -> Self {
        let b = bytemuck::bytes_of(w);
        CbN(std::array::from_fn(|k| if k < 32 { b[k] } else { tail(w, k) }))
    }
    fn same_owner(a: &CbW, b: &CbW) -> bool { a[0] as u8 == b[0] as u8 }
    fn mk(owner: u64, tag: u64) -> CbW {
        let w: CbW = [(0x41 + owner) & 0xff | tag.wrapping_mul(0x9e37_79b9) << 8, tag, !tag, tag.wrapping_mul(0x0101_0101_0101_0101)];
        w_of(&bytemuck::bytes_of(&w)[..N.min(32)])
    }
}
/// No callback information at all: everyone is the same owner.
#[derive(Clone, Copy, PartialEq, BorshSerialize, BorshDeserialize)]
pub struct Cb0;
unsafe impl Zeroable for Cb0 {}
unsafe impl Pod for Cb0 {}
identified!(Cb0, Cb0, |s| s);
impl CbData for Cb0 {
    const NAME: &'static str = "Cb0";
    fn from_w(_: &CbW) -> Self { Cb0 }
    fn same_owner(_: &CbW, _: &CbW) -> bool { true }
    fn mk(_: u64, _: u64) -> CbW { [0; 4] }
}
/// `f!(T)` for the callback type of that many bytes.
#[macro_export]
macro_rules! with_cb {
    ($n:expr, $f:ident) => { match $n {
        16 => $f!(Cb16), 24 => $f!(Cb24), 32 => $f!([u8; 32]),
        0 => $f!(Cb0), 1 => $f!(CbN<1>), 2 => $f!(CbN<2>), 3 => $f!(CbN<3>), 4 => $f!(CbN<4>), 5 => $f!(CbN<5>), 7 => $f!(CbN<7>), 8 => $f!(CbN<8>), 12 => $f!(CbN<12>), 20 => $f!(CbN<20>), 31 => $f!(CbN<31>),
        33 => $f!(CbN<33>), 40 => $f!(CbN<40>), 48 => $f!(CbN<48>), 64 => $f!(CbN<64>), 65 => $f!(CbN<65>), 100 => $f!(CbN<100>), 128 => $f!(CbN<128>), 200 => $f!(CbN<200>), 256 => $f!(CbN<256>), 257 => $f!(CbN<257>), 1000 => $f!(CbN<1000>),
        n => panic!("no callback type of {n} bytes"),
    } }
}
pub const CB_SIZES: [usize; 24] = [0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 24, 31, 32, 33, 40, 48, 64, 65, 100, 128, 200, 256, 257];

// ---------------------------------------------------------------- layout

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Lay { pub cb: usize, pub eqc: usize, pub bidc: usize, pub askc: usize }
pub const MARKET_LEN: usize = 8 + 112;
pub fn eq_len(n: usize, cb: usize) -> usize { 8 + 24 + n * (40 + 2 * cb) }
pub fn slab_len(n: usize, cb: usize) -> usize { 8 + 32 + 24 + cb + (n - 1) * (24 + 32 + cb) }
/// accounts begin at multiples of 8 bytes
fn r8(n: usize) -> usize { (n + 7) / 8 * 8 }
impl Lay {
    pub fn o_eq(&self) -> usize { MARKET_LEN }
    pub fn o_bids(&self) -> usize { r8(self.o_eq() + eq_len(self.eqc, self.cb)) }
    pub fn o_asks(&self) -> usize { r8(self.o_bids() + slab_len(self.bidc, self.cb)) }
    pub fn total(&self) -> usize { r8(self.o_asks() + slab_len(self.askc, self.cb)) }
    pub fn words(&self) -> usize { self.total() / 8 }
    pub fn lens(&self) -> [usize; 4] { [MARKET_LEN, eq_len(self.eqc, self.cb), slab_len(self.bidc, self.cb), slab_len(self.askc, self.cb)] }
    /// market, queue, bids, asks
    pub fn parts<'a>(&self, b: &'a [u8]) -> [&'a [u8]; 4] {
        let l = self.lens();
        [&b[..l[0]], &b[self.o_eq()..][..l[1]], &b[self.o_bids()..][..l[2]], &b[self.o_asks()..][..l[3]]]
    }
    pub fn parts_mut<'a>(&self, b: &'a mut [u8]) -> [&'a mut [u8]; 4] {
        let l = self.lens();
        let (m, r) = b.split_at_mut(self.o_eq());
        let (q, r) = r.split_at_mut(self.o_bids() - self.o_eq());
        let (x, y) = r.split_at_mut(self.o_asks() - self.o_bids());
        [m, &mut q[..l[1]], &mut x[..l[2]], &mut y[..l[3]]]
    }
}

pub fn key(n: u8) -> Pubkey { Pubkey::new_from_array([n; 32]) }
pub const PROGRAM: Pubkey = Pubkey::new_from_array([0x77; 32]);
pub const K_MARKET: u8 = 1;
pub const K_EQ: u8 = 2;
pub const K_BIDS: u8 = 3;
pub const K_ASKS: u8 = 4;

// ---------------------------------------------------------------- actions

#[derive(Clone, Debug, PartialEq)]
pub struct NewP { pub bid: bool, pub price: u64, pub base: u64, pub quote: u64, pub limit: u64, pub post_only: bool, pub post_allowed: bool, pub stb: u8, pub cb: CbW }

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    New(NewP),
    Cancel(u128),
    Mass(Vec<u128>),
    Consume(u64),
    /// Environment step: n orders were posted and cancelled in between; only the sequence number shows it.
    Seq(u64),
    /// Post an order with exactly this id on an otherwise untouched side (slab-level worlds).
    Put(bool, u128, u64),
    /// Slab::remove_by_key called directly.
    Del(bool, u128),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Summ { pub id: Option<u128>, pub base: u64, pub quote: u64, pub posted: u64 }

#[derive(Clone, Debug, PartialEq)]
pub enum Out { Ok(Option<Summ>), Err(u64), Panic(String) }
impl Out {
    pub fn is_ok(&self) -> bool { matches!(self, Out::Ok(_)) }
}
pub fn err_code(e: ProgramError) -> u64 { match e { ProgramError::Custom(n) => n as u64, e => u64::from(e) } }
pub const E_QFULL: u64 = 5;
pub const E_NOTFOUND: u64 = 6;
pub const E_SELF: u64 = 7;
pub const E_SLAB: u64 = 8;
pub const E_ACTIVE: u64 = 11;
pub const E_PRICE: u64 = 21;

pub const E_TAG: u64 = 24;
pub fn err_name(c: u64) -> String {
    const N: [&str; 25] = ["AlreadyInitialized", "WrongBidsAccount", "WrongAsksAccount", "WrongEventQueueAccount", "WrongCallerAuthority", "EventQueueFull", "OrderNotFound", "WouldSelfTrade", "SlabOutOfSpace", "FeeNotPayed",
        "NoOperations", "MarketStillActive", "InvalidBaseQuantity", "WrongEventQueueOwner", "WrongBidsOwner", "WrongAsksOwner", "WrongMarketOwner", "WrongMsrmOwner", "WrongMsrmMint", "WrongMsrmBalance", "IllegalMsrmOwner",
        "InvalidLimitPrice", "NumericalOverflow", "InvalidCallbackInfo", "AccountTagMismatch"];
    match N.get(c as usize) { Some(n) => n.to_string(), None if c >> 32 > 1 => format!("{:?}", ProgramError::from(c)), None => format!("error {c:#x}") }
}
impl std::fmt::Display for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Out::Ok(None) => write!(f, "Ok"),
            Out::Ok(Some(s)) => write!(f, "Ok(posted_id={}, base={}, quote={}, posted={})", s.id.map(|i| format!("{i:#x}")).unwrap_or("none".into()), s.base, s.quote, s.posted),
            Out::Err(c) => write!(f, "Err({})", err_name(*c)),
            Out::Panic(m) => write!(f, "PANIC({m})"),
        }
    }
}

pub use crate::calls::{to_side, to_stb};

/// Serialized instruction data for the program's entry point, written out by hand from the wire format.
pub fn wire(a: &Act, cb_len: usize) -> Vec<u8> {
    let mut d = vec![];
    match a {
        Act::New(p) => {
            d.push(1);
            d.extend(p.base.to_le_bytes());
            d.extend(p.quote.to_le_bytes());
            d.extend(p.price.to_le_bytes());
            d.push(!p.bid as u8);
            d.extend(p.limit.to_le_bytes());
            d.extend(&bytemuck::bytes_of(&p.cb)[..cb_len]);
            d.push(p.post_only as u8);
            d.push(p.post_allowed as u8);
            d.push(p.stb);
        }
        Act::Consume(n) => { d.push(2); d.extend(n.to_le_bytes()); }
        Act::Cancel(id) => { d.push(3); d.extend(id.to_le_bytes()); }
        Act::Mass(v) => { d.push(5); d.extend((v.len() as u32).to_le_bytes()); for i in v { d.extend(i.to_le_bytes()) } }
        Act::Seq(_) | Act::Put(..) | Act::Del(..) => unreachable!(),
    }
    d
}

pub const REG_LEN: usize = 64;

/// Run one action on the accounts held in `buf`. With `entry`, goes through the program's entry point
/// (callback type [u8;32] only) and decodes the return register.
pub fn exec<C: CbT>(buf: &mut [u64], lay: &Lay, a: &Act, entry: bool) -> Out where <C as CallbackInfo>::CallbackId: PartialEq {
    #[cfg(feature = "chain")]
    let mut before = buf.to_vec();
    let o = exec_by::<C>(buf, lay, a, &mut |b, a| crate::calls::run::<C>(b, lay, a, entry));
    #[cfg(feature = "chain")]
    if !matches!(a, Act::Seq(_)) {
        crate::chain::compare(&mut before, buf, &o, &|| format!("`{}`", crate::engine::show_act(a)), |b| exec_by::<C>(b, lay, a, &mut |b, a| C::c_run(b, lay, a, entry)));
    }
    o
}
fn exec_by<C: CbData>(buf: &mut [u64], lay: &Lay, a: &Act, run: &mut dyn FnMut(&mut [u8], &Act) -> Out) -> Out {
    let bytes: &mut [u8] = bytemuck::cast_slice_mut(buf);
    let o = lay.o_eq() + 24;
    match a {
        Act::Seq(n) => { bytes[o..o + 8].copy_from_slice(&n.to_le_bytes()); Out::Ok(None) }
        Act::Put(bid, id, qty) => {
            let low = *id as u64;
            bytes[o..o + 8].copy_from_slice(&(if *bid { !low } else { low }).to_le_bytes());
            let n = NewP { bid: *bid, price: (*id >> 64) as u64, base: *qty, quote: u64::MAX, limit: u64::MAX, post_only: false, post_allowed: true, stb: 0, cb: C::mk(*qty, *id as u64 ^ (*id >> 64) as u64) };
            run(bytes, &Act::New(n))
        }
        a => run(bytes, a),
    }
}

/// Option<OrderSummary> in borsh, decoded by hand.
pub fn decode_register(r: &[u8]) -> Option<Summ> {
    if r[0] == 0 { return None; }
    let (id, o) = if r[1] == 1 { (Some(u128::from_le_bytes(r[2..18].try_into().unwrap())), 18) } else { (None, 2) };
    let g = |o: usize| u64::from_le_bytes(r[o..o + 8].try_into().unwrap());
    Some(Summ { id, base: g(o), quote: g(o + 8), posted: g(o + 16) })
}

/// Create a market with the real create_market instruction on zeroed accounts.
pub fn create<C: CbT>(lay: &Lay, tick: u64, min: u64) -> Result<Vec<u64>, String> where <C as CallbackInfo>::CallbackId: PartialEq {
    let mut buf = vec![0u64; lay.words()];
    let o = crate::calls::create::<C>(bytemuck::cast_slice_mut(&mut buf), lay, tick, min);
    #[cfg(feature = "chain")]
    crate::chain::compare(&mut vec![0u64; lay.words()], &buf, &o, &|| "creating the market".into(), |b| C::c_create(bytemuck::cast_slice_mut(b), lay, tick, min));
    match o {
        Out::Ok(_) => Ok(buf),
        Out::Panic(p) => Err(format!("create_market panicked: {p}")),
        Out::Err(e) => Err(format!("create_market failed: {}", err_name(e))),
    }
}
