"use strict";
// Stand-in for @solana/web3.js: only what names accounts; nothing here touches a network.
const BN = require("bn.js");
let counter = 0;
const A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
function b58(s) { let v = 0n; for (const c of s) v = v * 58n + BigInt(A.indexOf(c)); const o = Buffer.alloc(32); for (let i = 31; i >= 0; i--) { o[i] = Number(v & 255n); v >>= 8n; } return o; }
class PublicKey {
  constructor(x) {
    if (typeof x === "string") this.b = b58(x);
    else if (x instanceof PublicKey) this.b = Buffer.from(x.b);
    else if (x instanceof BN) this.b = x.toArrayLike(Buffer, "be", 32);
    else if (typeof x === "number") { this.b = Buffer.alloc(32); this.b.writeUInt32BE(x, 28); }
    else { const s = Buffer.from(x); if (s.length > 32) throw new Error("Invalid public key input"); this.b = Buffer.concat([Buffer.alloc(32 - s.length), s]); }
  }
  toBuffer() { return Buffer.from(this.b); }
  toBytes() { return new Uint8Array(this.b); }
  toBase58() { return this.b.toString("hex"); }
  toString() { return this.toBase58(); }
  toJSON() { return this.toBase58(); }
  equals(o) { return this.b.equals(o.b); }
}
PublicKey.default = new PublicKey(Buffer.alloc(32));
class Keypair { constructor() { const b = Buffer.alloc(32, 0xd0); b.writeUInt32LE(++counter, 0); this.publicKey = new PublicKey(b); } static generate() { return new Keypair(); } }
class TransactionInstruction { constructor(o) { Object.assign(this, o); } }
const SystemProgram = { createAccount: (o) => new TransactionInstruction({ system: "createAccount", ...o }), programId: new PublicKey(Buffer.alloc(32)) };
class Connection { constructor(map) { this.map = map; } async getAccountInfo(k) { const d = this.map.get(k.toString()); return d ? { data: Buffer.from(d) } : null; } async getMinimumBalanceForRentExemption(n) { return 890880 + 6960 * n; } }
module.exports = { PublicKey, Keypair, TransactionInstruction, SystemProgram, Connection };
