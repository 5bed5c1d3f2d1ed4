"use strict";
// Stand-in for the bn.js package (not installed here): the same interface, over BigInt.
const MASK = (n) => (1n << BigInt(n)) - 1n;
const big = (x) => (x instanceof BN ? x.v : BigInt(x));
const abs = (x) => (x < 0n ? -x : x);
function assert(c, m) { if (!c) throw new Error(m || "Assertion failed"); }
function blen(x) { x = abs(x); return x === 0n ? 0 : x.toString(2).length; }
function fromBytes(a, le) { let v = 0n; const b = le ? Array.from(a).reverse() : Array.from(a); for (const x of b) v = (v << 8n) | BigInt(x); return v; }
class BN {
  constructor(n, base, endian) {
    if (base === "le" || base === "be") { endian = base; base = 10; }
    if (n === undefined || n === null) { this.v = 0n; return; }
    if (n instanceof BN) { this.v = n.v; return; }
    if (typeof n === "bigint") { this.v = n; return; }
    if (typeof n === "number") { assert(Number.isInteger(n) && Math.abs(n) < 0x20000000000000); this.v = BigInt(n); return; }
    if (typeof n === "object") { this.v = fromBytes(n, endian === "le"); return; }
    let s = n.toString().replace(/\s+/g, ""), neg = false;
    if (s[0] === "-") { neg = true; s = s.slice(1); }
    if (base === "hex") base = 16;
    base = base || 10;
    let v = 0n;
    for (const ch of s) { const d = parseInt(ch, base); assert(!Number.isNaN(d), "Invalid character"); v = v * BigInt(base) + BigInt(d); }
    this.v = neg ? -v : v;
  }
  static isBN(x) { return x instanceof BN; }
  static max(a, b) { return a.v > b.v ? a : b; }
  static min(a, b) { return a.v < b.v ? a : b; }
  static of(v) { const r = new BN(0); r.v = v; return r; }
  get negative() { return this.v < 0n ? 1 : 0; }
  clone() { return BN.of(this.v); }
  copy(d) { d.v = this.v; }
  toString(base, pad) { if (base === "hex") base = 16; let s = abs(this.v).toString(base || 10); if (pad) while (s.length % pad !== 0) s = "0" + s; return (this.v < 0n ? "-" : "") + s; }
  toNumber() { assert(blen(this.v) <= 53, "Number can only safely store up to 53 bits"); return Number(this.v); }
  toJSON() { return this.toString(16, 2); }
  valueOf() { return this; }
  inspect() { return "<BN: " + this.toString(16) + ">"; }
  byteLength() { return Math.ceil(blen(this.v) / 8); }
  bitLength() { return blen(this.v); }
  zeroBits() { if (this.v === 0n) return 0; let n = 0, x = abs(this.v); while ((x & 1n) === 0n) { x >>= 1n; n++; } return n; }
  toArrayLike(T, endian, length) {
    const n = length || Math.max(1, this.byteLength());
    assert(this.byteLength() <= n, "byte array longer than desired length");
    const a = []; let x = abs(this.v);
    for (let i = 0; i < n; i++) { a.push(Number(x & 255n)); x >>= 8n; }
    if (endian !== "le") a.reverse();
    return T === Array ? a : T.from ? T.from(a) : new T(a);
  }
  toArray(endian, length) { return this.toArrayLike(Array, endian, length); }
  toBuffer(endian, length) { return this.toArrayLike(Buffer, endian, length); }
  isNeg() { return this.v < 0n; }
  isZero() { return this.v === 0n; }
  isEven() { return (this.v & 1n) === 0n; }
  isOdd() { return (this.v & 1n) === 1n; }
  cmp(o) { o = big(o); return this.v < o ? -1 : this.v > o ? 1 : 0; }
  ucmp(o) { const a = abs(this.v), b = abs(o.v); return a < b ? -1 : a > b ? 1 : 0; }
  testn(n) { return ((abs(this.v) >> BigInt(n)) & 1n) === 1n; }
}
const two = {
  add: (a, b) => a + b, sub: (a, b) => a - b, mul: (a, b) => a * b, mod: (a, b) => a % b, div: (a, b) => a / b,
  umod: (a, b) => { const r = a % b; return r < 0n ? r + abs(b) : r; }, pow: (a, b) => a ** b,
  and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b, uand: (a, b) => abs(a) & abs(b), uor: (a, b) => abs(a) | abs(b), uxor: (a, b) => abs(a) ^ abs(b),
  gcd: (a, b) => { a = abs(a); b = abs(b); while (b) [a, b] = [b, a % b]; return a; },
  divRound: (a, b) => { const q = a / b, r = a % b; return abs(r) * 2n >= abs(b) ? (a < 0n !== b < 0n ? q - 1n : q + 1n) : q; },
};
for (const [k, f] of Object.entries(two)) {
  BN.prototype[k] = function (o) { assert(o instanceof BN, k + " expects a BN"); return BN.of(f(this.v, o.v)); };
  BN.prototype["i" + k] = function (o) { assert(o instanceof BN, "i" + k + " expects a BN"); this.v = f(this.v, o.v); return this; };
}
const num = {
  addn: (a, n) => a + BigInt(n), subn: (a, n) => a - BigInt(n), muln: (a, n) => a * BigInt(n), divn: (a, n) => a / BigInt(n),
  shln: (a, n) => a << BigInt(n), shrn: (a, n) => (a < 0n ? -(-a >> BigInt(n)) : a >> BigInt(n)), ushln: (a, n) => a << BigInt(n), ushrn: (a, n) => (a < 0n ? -(-a >> BigInt(n)) : a >> BigInt(n)),
  maskn: (a, n) => a & MASK(n), notn: (a, n) => a ^ MASK(n),
};
for (const [k, f] of Object.entries(num)) {
  BN.prototype[k] = function (n) { assert(typeof n === "number" && Number.isInteger(n) && n >= 0); return BN.of(f(this.v, n)); };
  BN.prototype["i" + k] = function (n) { assert(typeof n === "number" && Number.isInteger(n) && n >= 0); this.v = f(this.v, n); return this; };
}
BN.prototype.modn = BN.prototype.modrn = function (n) { return Number(this.v % BigInt(n)); };
BN.prototype.divmod = function (o) { return { div: this.div(o), mod: this.mod(o) }; };
BN.prototype.bincn = function (b) { this.v += 1n << BigInt(b); return this; };
BN.prototype.setn = function (b, x) { const m = 1n << BigInt(b); this.v = x ? this.v | m : this.v & ~m; return this; };
BN.prototype.neg = function () { return BN.of(-this.v); };
BN.prototype.ineg = function () { this.v = -this.v; return this; };
BN.prototype.abs = function () { return BN.of(abs(this.v)); };
BN.prototype.iabs = function () { this.v = abs(this.v); return this; };
BN.prototype.sqr = function () { return BN.of(this.v * this.v); };
BN.prototype.isqr = function () { this.v *= this.v; return this; };
BN.prototype.toTwos = function (w) { return BN.of(this.v & MASK(w)); };
BN.prototype.fromTwos = function (w) { return BN.of(this.testn(w - 1) ? this.v - (1n << BigInt(w)) : this.v); };
for (const [k, f] of Object.entries({ gt: (c) => c > 0, gte: (c) => c >= 0, lt: (c) => c < 0, lte: (c) => c <= 0, eq: (c) => c === 0 })) {
  BN.prototype[k] = function (o) { return f(this.cmp(o)); };
  BN.prototype[k + "n"] = function (n) { return f(this.cmp(BN.of(BigInt(n)))); };
}
BN.prototype.cmpn = function (n) { return this.cmp(BN.of(BigInt(n))); };
BN.BN = BN;
BN.default = BN;
module.exports = BN;
