'use strict';
// Reduces a failing generated case by editing the stream of random choices behind it
// (delete blocks, zero values) and generating again: every candidate is a valid case.
const { Rng } = require('./prng.js');
const MAX = 0xffffffff; // the plainest choice: options off, lists short
class StreamRng extends Rng {
  constructor(stream, base) { super('x'); this.init = true; this.s = stream; this.i = 0; this.base = base; this.rec = []; }
  u32() {
    if (!this.init) return 0;
    const v = this.base ? this.base.u32() : this.i < this.s.length ? this.s[this.i] : MAX;
    this.i++;
    this.rec.push(v);
    if (this.rec.length > 200000) throw new Error('choice stream too long');
    return v;
  }
}
// run(rng) -> signature string of the failure, or null
function shrink(baseRng, run, budgetMs = 20000) {
  const t0 = Date.now();
  let first = new StreamRng([], baseRng);
  const sig = run(first);
  if (!sig) return null;
  let best = first.rec;
  const attempt = (s) => { const r = new StreamRng(s); let x; try { x = run(r); } catch (e) { return false; } if (x === sig) { const u = r.rec.slice(0, Math.min(r.i, s.length)); if (u.length < best.length || (u.length === best.length && less(u, best))) { best = u; return true; } } return false; };
  const less = (a, b) => { for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return a[i] > b[i]; return false; };
  for (let again = true; again && Date.now() - t0 < budgetMs;) {
    again = false;
    for (let len = Math.min(256, best.length >> 1); len >= 1; len >>= 1) for (let i = 0; i + len <= best.length && Date.now() - t0 < budgetMs;) { if (attempt(best.slice(0, i).concat(best.slice(i + len)))) again = true; else i += Math.max(1, len >> 1); }
    for (let len = 8; len >= 1; len >>= 1) for (let i = 0; i + len <= best.length && Date.now() - t0 < budgetMs; i += len) { if (best.slice(i, i + len).every((x) => x === MAX)) continue; const c = best.slice(); for (let k = 0; k < len; k++) c[i + k] = MAX; if (attempt(c)) again = true; }
  }
  return { sig, rng: new StreamRng(best), size: best.length };
}
module.exports = { shrink, StreamRng };
