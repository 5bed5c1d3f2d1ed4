"use strict";
// Stand-in for borsh 0.6 (not installed here), after its published wire format and schema rules.
const BN = require("bn.js");
class BorshError extends Error {}
class BinaryReader {
  constructor(b) { this.buf = Buffer.from(b.buffer ? b : Buffer.from(b)); this.offset = 0; }
  readBuffer(n) {
    if (this.offset + n > this.buf.length) throw new BorshError(`Expected buffer length ${n} isn't within bounds`);
    const r = this.buf.subarray(this.offset, this.offset + n);
    this.offset += n;
    return r;
  }
  readU8() { return this.readBuffer(1).readUInt8(0); }
  readU16() { return this.readBuffer(2).readUInt16LE(0); }
  readU32() { return this.readBuffer(4).readUInt32LE(0); }
  readU64() { return new BN(this.readBuffer(8), "le"); }
  readU128() { return new BN(this.readBuffer(16), "le"); }
  readU256() { return new BN(this.readBuffer(32), "le"); }
  readU512() { return new BN(this.readBuffer(64), "le"); }
  readString() { return this.readBuffer(this.readU32()).toString("utf8"); }
  readFixedArray(n) { return new Uint8Array(this.readBuffer(n)); }
  readArray(f) { const n = this.readU32(); const r = []; for (let i = 0; i < n; i++) r.push(f()); return r; }
}
class BinaryWriter {
  constructor() { this.parts = []; }
  w(b) { this.parts.push(Buffer.from(b)); }
  writeU8(v) { const b = Buffer.alloc(1); b.writeUInt8(v); this.w(b); }
  writeU16(v) { const b = Buffer.alloc(2); b.writeUInt16LE(v); this.w(b); }
  writeU32(v) { const b = Buffer.alloc(4); b.writeUInt32LE(v); this.w(b); }
  writeU64(v) { this.w(new BN(v).toArray("le", 8)); }
  writeU128(v) { this.w(new BN(v).toArray("le", 16)); }
  writeU256(v) { this.w(new BN(v).toArray("le", 32)); }
  writeU512(v) { this.w(new BN(v).toArray("le", 64)); }
  writeString(s) { const b = Buffer.from(s, "utf8"); this.writeU32(b.length); this.w(b); }
  writeFixedArray(a) { this.w(a); }
  writeArray(a, f) { this.writeU32(a.length); for (const x of a) f(x); }
  toArray() { return new Uint8Array(Buffer.concat(this.parts)); }
}
const cap = (s) => s.charAt(0).toUpperCase() + s.slice(1);
function readField(schema, name, t, r) {
  if (typeof t === "string") return r["read" + cap(t)]();
  if (t instanceof Array) {
    if (typeof t[0] === "number") return r.readFixedArray(t[0]);
    if (typeof t[1] === "number") { const a = []; for (let i = 0; i < t[1]; i++) a.push(readField(schema, null, t[0], r)); return a; }
    return r.readArray(() => readField(schema, name, t[0], r));
  }
  if (t.kind === "option") return r.readU8() ? readField(schema, name, t.type, r) : undefined;
  return readStruct(schema, t, r);
}
function readStruct(schema, T, r) {
  const s = schema.get(T);
  if (!s) throw new BorshError(`Class ${T.name} is missing in schema`);
  if (s.kind === "struct") { const o = {}; for (const [n, t] of s.fields) o[n] = readField(schema, n, t, r); return new T(o); }
  if (s.kind === "enum") { const i = r.readU8(); if (i >= s.values.length) throw new BorshError("Enum index out of range"); const [n, t] = s.values[i]; return new T({ [n]: readField(schema, n, t, r) }); }
  throw new BorshError("Unexpected schema kind");
}
function writeField(schema, name, v, t, w) {
  if (typeof t === "string") return w["write" + cap(t)](v);
  if (t instanceof Array) {
    if (typeof t[0] === "number") { if (v.length !== t[0]) throw new BorshError(`Expecting byte array of length ${t[0]}, but got ${v.length} bytes`); return w.writeFixedArray(v); }
    if (t.length === 2 && typeof t[1] === "number") { if (v.length !== t[1]) throw new BorshError("Expecting array of another length"); for (const x of v) writeField(schema, null, x, t[0], w); return; }
    return w.writeArray(v, (x) => writeField(schema, name, x, t[0], w));
  }
  if (t.kind === "option") { if (v === null || v === undefined) w.writeU8(0); else { w.writeU8(1); writeField(schema, name, v, t.type, w); } return; }
  writeStruct(schema, v, w);
}
function writeStruct(schema, o, w) {
  const s = schema.get(o.constructor);
  if (!s) throw new BorshError(`Class ${o.constructor.name} is missing in schema`);
  for (const [n, t] of s.fields) writeField(schema, n, o[n], t, w);
}
exports.BorshError = BorshError;
exports.BinaryReader = BinaryReader;
exports.BinaryWriter = BinaryWriter;
exports.deserialize = (schema, T, b) => { const r = new BinaryReader(b); const x = readStruct(schema, T, r); if (r.offset < b.length) throw new BorshError(`Unexpected ${b.length - r.offset} bytes after deserialized data`); return x; };
exports.deserializeUnchecked = (schema, T, b) => readStruct(schema, T, new BinaryReader(b));
exports.serialize = (schema, o) => { const w = new BinaryWriter(); writeStruct(schema, o, w); return w.toArray(); };
