//! Independent decoder of the on-chain account layout (does not use the crate's own accessors).
use crate::env::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Ord { pub id: u128, pub qty: u64, pub cb: CbW }
impl Ord { pub fn price(&self) -> u64 { (self.id >> 64) as u64 } }

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Fill { side: u8, id: u128, base: u64, quote: u64, mcb: CbW, tcb: CbW },
    Out { side: u8, id: u128, base: u64, cb: CbW },
    Bad(u8),
}
impl Ev { pub fn id(&self) -> Option<u128> { match self { Ev::Fill { id, .. } | Ev::Out { id, .. } => Some(*id), _ => None } } }

#[derive(Clone, Debug, PartialEq, Default)]
pub struct View {
    /// resting orders in tree order (ascending key when the tree is well formed)
    pub bids: Vec<Ord>,
    pub asks: Vec<Ord>,
    pub q: Vec<Ev>,
    pub seq: u64,
    pub head: u64,
    pub count: u64,
    /// the account could not be read as a book or a queue
    pub berr: Option<String>,
    pub qerr: Option<String>,
}
impl View {
    pub fn side(&self, bid: bool) -> &Vec<Ord> { if bid { &self.bids } else { &self.asks } }
    pub fn all(&self) -> impl Iterator<Item = &Ord> { self.bids.iter().chain(self.asks.iter()) }
    pub fn find(&self, id: u128) -> Option<&Ord> { self.all().find(|o| o.id == id) }
}

/// Lookup by id that stays cheap on large books.
pub struct Idx<'a> { v: &'a View, m: Option<rustc_hash::FxHashMap<u128, &'a Ord>> }
impl<'a> Idx<'a> {
    pub fn new(v: &'a View) -> Self {
        let n = v.bids.len() + v.asks.len();
        Idx { v, m: if n > 48 { let mut m = rustc_hash::FxHashMap::default(); for o in v.all() { m.entry(o.id).or_insert(o); } Some(m) } else { None } }
    }
    pub fn get(&self, id: u128) -> Option<&'a Ord> { match &self.m { Some(m) => m.get(&id).copied(), None => self.v.find(id) } }
}

fn u32at(b: &[u8], o: usize) -> u32 { u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) }
pub fn u64at(b: &[u8], o: usize) -> u64 { u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) }
fn u128at(b: &[u8], o: usize) -> u128 { u128::from_le_bytes(b[o..o + 16].try_into().unwrap()) }
fn cbat(b: &[u8], o: usize, len: usize) -> CbW { w_of(&b[o..o + len]) }

/// Raw slab accessor.
pub struct RawSlab<'a> { pub b: &'a [u8], pub cap: usize, pub cb: usize }
impl<'a> RawSlab<'a> {
    pub fn hdr(&self, i: usize) -> u32 { u32at(self.b, 8 + 4 * i) }
    pub fn leaf_free_len(&self) -> u32 { self.hdr(0) }
    pub fn leaf_free_head(&self) -> u32 { self.hdr(1) }
    pub fn leaf_bump(&self) -> u32 { self.hdr(2) }
    pub fn inner_free_len(&self) -> u32 { self.hdr(3) }
    pub fn inner_free_head(&self) -> u32 { self.hdr(4) }
    pub fn inner_bump(&self) -> u32 { self.hdr(5) }
    pub fn root(&self) -> u32 { self.hdr(6) }
    pub fn count(&self) -> u32 { self.hdr(7) }
    fn lo(&self, i: usize) -> usize { 40 + 24 * i }
    fn io(&self, i: usize) -> usize { 40 + 24 * self.cap + 32 * i }
    fn co(&self, i: usize) -> usize { 40 + 24 * self.cap + 32 * (self.cap - 1) + self.cb * i }
    pub fn leaf(&self, i: usize) -> (u128, u64) { (u128at(self.b, self.lo(i)), u64at(self.b, self.lo(i) + 16)) }
    pub fn inner(&self, i: usize) -> (u128, u64, [u32; 2]) {
        let o = self.io(i);
        (u128at(self.b, o), u64at(self.b, o + 16), [u32at(self.b, o + 24), u32at(self.b, o + 28)])
    }
    pub fn cbw(&self, i: usize) -> CbW { cbat(self.b, self.co(i), self.cb) }

    /// Leaves reachable from the root, in tree order.
    pub fn leaves(&self) -> Result<Vec<usize>, String> {
        let n = self.count() as usize;
        if n == 0 { return Ok(vec![]); }
        if n > self.cap { return Err(format!("order count {n} exceeds the capacity {}", self.cap)); }
        let mut v = Vec::with_capacity(n);
        let mut st = vec![self.root()];
        let mut steps = 0;
        while let Some(h) = st.pop() {
            steps += 1;
            if steps > 2 * self.cap + 2 { return Err("the tree has a cycle or shared nodes".into()); }
            if h & (1 << 31) != 0 {
                let i = !h as usize;
                if i >= self.cap - 1 { return Err(format!("inner node index {i} out of range")); }
                let (_, _, c) = self.inner(i);
                st.push(c[1]);
                st.push(c[0]);
            } else {
                if h as usize >= self.cap { return Err(format!("leaf index {h} out of range")); }
                v.push(h as usize);
            }
        }
        if v.len() != n { return Err(format!("the tree reaches {} orders but the header counts {n}", v.len())); }
        Ok(v)
    }

    /// Full structural check: conservation of nodes and consistency of every edge.
    pub fn check(&self) -> Result<(), String> {
        let leaves = self.leaves()?;
        let n = leaves.len();
        let mut leaf_use = vec![0u8; self.cap];
        for l in &leaves {
            if leaf_use[*l] != 0 { return Err(format!("leaf {l} is reachable twice")); }
            leaf_use[*l] = 1;
            if *l as u32 >= self.leaf_bump() { return Err(format!("live leaf {l} was never allocated")); }
        }
        if self.leaf_bump() as usize > self.cap { return Err("leaf allocation index beyond the account".into()); }
        if self.inner_bump() as usize > self.cap - 1 { return Err("inner node allocation index beyond the account".into()); }
        let fl = self.leaf_free_len() as usize;
        if n + fl != self.leaf_bump() as usize { return Err(format!("{n} live + {fl} free leaves, but {} were allocated", self.leaf_bump())); }
        let mut h = self.leaf_free_head();
        for k in 0..fl {
            if h >= self.leaf_bump() { return Err(format!("free leaf {h} was never allocated")); }
            if leaf_use[h as usize] != 0 { return Err(format!("leaf {h} is {}", if leaf_use[h as usize] == 1 { "both live and free" } else { "free twice" })); }
            leaf_use[h as usize] = 2;
            if k + 1 < fl {
                let nx = self.leaf(h as usize).1;
                if nx > u32::MAX as u64 { return Err("broken leaf free list".into()); }
                h = nx as u32;
            }
        }
        let mut inner_use = vec![0u8; self.cap];
        let mut live_inner = 0;
        if n > 0 {
            // (handle, bits fixed by the ancestors: prefix value, prefix length)
            let mut st: Vec<(u32, u128, u32)> = vec![(self.root(), 0, 0)];
            let mask = |l: u32| if l == 0 { 0u128 } else if l >= 128 { !0 } else { !0u128 << (128 - l) };
            while let Some((h, pre, pl)) = st.pop() {
                if h & (1 << 31) != 0 {
                    let i = !h as usize;
                    let (k, len, c) = self.inner(i);
                    if inner_use[i] != 0 { return Err(format!("inner node {i} is reachable twice")); }
                    inner_use[i] = 1;
                    live_inner += 1;
                    if i as u32 >= self.inner_bump() { return Err(format!("live inner node {i} was never allocated")); }
                    if len >= 128 || (len as u32) < pl { return Err(format!("inner node {i}: prefix length {len} below its parent's {pl}")); }
                    if (k ^ pre) & mask(pl) != 0 { return Err(format!("inner node {i}: key does not extend its parent's prefix")); }
                    let bit = (1u128 << 127) >> len;
                    let base = k & mask(len as u32);
                    st.push((c[0], base, len as u32 + 1));
                    st.push((c[1], base | bit, len as u32 + 1));
                } else {
                    let (k, _) = self.leaf(h as usize);
                    if (k ^ pre) & mask(pl) != 0 { return Err(format!("order {k:#x} hangs below a tree edge that excludes it")); }
                }
            }
            if live_inner != n - 1 { return Err(format!("{n} orders but {live_inner} inner nodes")); }
        }
        let fi = self.inner_free_len() as usize;
        if live_inner + fi != self.inner_bump() as usize { return Err(format!("{live_inner} live + {fi} free inner nodes, but {} were allocated", self.inner_bump())); }
        let mut h = self.inner_free_head();
        for k in 0..fi {
            if h >= self.inner_bump() { return Err(format!("free inner node {h} was never allocated")); }
            if inner_use[h as usize] != 0 { return Err(format!("inner node {h} is {}", if inner_use[h as usize] == 1 { "both live and free" } else { "free twice" })); }
            inner_use[h as usize] = 2;
            if k + 1 < fi {
                let nx = self.inner(h as usize).1;
                if nx > u32::MAX as u64 { return Err("broken inner node free list".into()); }
                h = nx as u32;
            }
        }
        Ok(())
    }

    pub fn orders(&self) -> Result<Vec<Ord>, String> {
        Ok(self.leaves()?.into_iter().map(|l| { let (id, qty) = self.leaf(l); Ord { id, qty, cb: self.cbw(l) } }).collect())
    }
}

pub fn slab<'a>(bytes: &'a [u8], lay: &Lay, bid: bool) -> RawSlab<'a> {
    let (o, cap) = if bid { (lay.o_bids(), lay.bidc) } else { (lay.o_asks(), lay.askc) };
    RawSlab { b: &bytes[o..o + slab_len(cap, lay.cb)], cap, cb: lay.cb }
}

pub fn event_at(q: &[u8], lay_cb: usize, cap: usize, i: usize) -> Ev {
    let o = 32 + 40 * i;
    let co = 32 + 40 * cap + 2 * lay_cb * i;
    let id = u128at(q, o + 16);
    match q[o] {
        0 => Ev::Fill { side: q[o + 1], id, base: u64at(q, o + 32), quote: u64at(q, o + 8), mcb: cbat(q, co, lay_cb), tcb: cbat(q, co + lay_cb, lay_cb) },
        1 => Ev::Out { side: q[o + 1], id, base: u64at(q, o + 32), cb: cbat(q, co, lay_cb) },
        t => Ev::Bad(t),
    }
}

pub fn queue(q: &[u8], cb: usize, cap: usize) -> Result<Vec<Ev>, String> {
    let (head, count) = (u64at(q, 8), u64at(q, 16));
    if count > cap as u64 { return Err(format!("event count {count} exceeds the capacity {cap}")); }
    if head > 1 << 62 { return Err(format!("queue head {head} out of range")); }
    Ok((0..count).map(|k| event_at(q, cb, cap, ((head + k) % cap as u64) as usize)).collect())
}

pub fn view(buf: &[u64], lay: &Lay) -> View {
    let b: &[u8] = bytemuck::cast_slice(buf);
    let mut v = View::default();
    match slab(b, lay, true).orders() { Ok(o) => v.bids = o, Err(e) => v.berr = Some(format!("bids: {e}")) }
    match slab(b, lay, false).orders() { Ok(o) => v.asks = o, Err(e) => v.berr = Some(format!("asks: {e}")) }
    let q = lay.parts(b)[1];
    v.head = u64at(q, 8);
    v.count = u64at(q, 16);
    v.seq = u64at(q, 24);
    match queue(q, lay.cb, lay.eqc) { Ok(e) => v.q = e, Err(e) => v.qerr = Some(e) }
    v
}
