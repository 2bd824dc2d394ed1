'use strict';
// Small deterministic PRNG (sfc32) with convenience pickers. All randomness in
// the checks comes from here, seeded by VERIF_SEED.
function hash32(str) {
  let h = 2166136261 >>> 0;
  for (let i = 0; i < str.length; i++) { h ^= str.charCodeAt(i); h = Math.imul(h, 16777619) >>> 0; }
  return h >>> 0;
}
class Rng {
  constructor(seedStr) {
    const s = String(seedStr);
    this.a = hash32(s + 'a'); this.b = hash32(s + 'b'); this.c = hash32(s + 'c'); this.d = 1;
    for (let i = 0; i < 16; i++) this.u32();
  }
  u32() {
    let t = (this.a + this.b | 0) + this.d | 0;
    this.d = this.d + 1 | 0;
    this.a = this.b ^ this.b >>> 9;
    this.b = this.c + (this.c << 3) | 0;
    this.c = this.c << 21 | this.c >>> 11;
    this.c = this.c + t | 0;
    return t >>> 0;
  }
  int(n) { return n <= 1 ? 0 : Math.floor(this.u32() / 4294967296 * n); }   // [0,n)
  range(a, b) { return a + this.int(b - a + 1); }                             // [a,b]
  bool(p = 0.5) { return this.u32() / 4294967296 < p; }
  pick(arr) { return arr[this.int(arr.length)]; }
  // weighted pick: [[w, v], ...]
  weighted(pairs) {
    let tot = 0; for (const [w] of pairs) tot += w;
    let x = this.u32() / 4294967296 * tot;
    for (const [w, v] of pairs) { if ((x -= w) < 0) return v; }
    return pairs[pairs.length - 1][1];
  }
}
module.exports = { Rng, hash32 };
