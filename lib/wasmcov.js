'use strict';
// Binary instrumentation of the wasm module that was built from /repo.
//
// Every function entry and every loop header executes
//     steps += 1; if (steps > limit) trap
// (two added mutable i64 globals, exported as __vsteps / __vlimit), which turns
// "hangs" into a deterministic, machine-independent verdict, and every function
// entry, loop header, `if`/`else` arm and br_if fall-through sets one byte of a
// second linear memory (exported as __vcov) so a run can report - and steer by -
// the control-flow points it actually reached. The program's own memory, stack and
// results are untouched.

class R {
  constructor(b) { this.b = b; this.p = 0; }
  u8() { return this.b[this.p++]; }
  leb() { // unsigned, up to 64 bits, returned as Number
    let r = 0, m = 1, x;
    do { x = this.b[this.p++]; r += (x & 127) * m; m *= 128; } while (x & 128);
    return r;
  }
  skipLeb() { while (this.b[this.p++] & 128); }
}
function uleb(n) { const o = []; do { let x = n % 128; n = Math.floor(n / 128); if (n) x |= 128; o.push(x); } while (n); return o; }
function sleb(n) { // signed, Number
  const o = []; for (;;) { let x = ((n % 128) + 128) % 128; n = Math.floor(n / 128);
    if ((n === 0 && !(x & 64)) || (n === -1 && (x & 64))) { o.push(x); return o; } o.push(x | 128); } }
const str = s => { const b = [...Buffer.from(s, 'utf8')]; return [...uleb(b.length), ...b]; };

function skipInstr(r, op) {
  switch (op) {
    case 0x02: case 0x03: case 0x04: case 0x06: r.skipLeb(); return;              // block types
    case 0x0c: case 0x0d: case 0x10: case 0x12: case 0xd2: r.skipLeb(); return;   // br, br_if, call, return_call, ref.func
    case 0x11: case 0x13: r.skipLeb(); r.skipLeb(); return;                        // call_indirect
    case 0x0e: { const n = r.leb(); for (let i = 0; i <= n; i++) r.skipLeb(); return; }
    case 0x1c: { const n = r.leb(); for (let i = 0; i < n; i++) r.skipLeb(); return; }
    case 0x20: case 0x21: case 0x22: case 0x23: case 0x24: case 0x25: case 0x26: r.skipLeb(); return;
    case 0x3f: case 0x40: r.skipLeb(); return;
    case 0x41: case 0x42: r.skipLeb(); return;
    case 0x43: r.p += 4; return;
    case 0x44: r.p += 8; return;
    case 0xd0: r.skipLeb(); return;
    case 0xfc: {
      const s = r.leb();
      if (s <= 7) return;
      if (s === 8 || s === 10 || s === 12 || s === 14) { r.skipLeb(); r.skipLeb(); return; }
      if (s === 9 || s === 11 || s === 13 || s === 15 || s === 16 || s === 17) { r.skipLeb(); return; }
      throw new Error('wasmcov: opcode fc ' + s);
    }
  }
  if (op >= 0x28 && op <= 0x3e) { const f = r.leb(); if (f & 64) r.skipLeb(); r.skipLeb(); return; }
  if (op <= 0x01 || op === 0x05 || op === 0x0b || op === 0x0f || op === 0x1a || op === 0x1b ||
      (op >= 0x45 && op <= 0xc4) || op === 0xd1) return;
  throw new Error('wasmcov: opcode 0x' + op.toString(16));
}

function instrument(bytes) {
  const r = new R(bytes);
  r.p = 8;
  const secs = [];
  while (r.p < bytes.length) { const id = r.u8(); const n = r.leb(); secs.push({ id, body: bytes.subarray(r.p, r.p + n) }); r.p += n; }
  const get = id => secs.find(s => s.id === id);
  let impGlobals = 0, impMems = 0, impFuncs = 0;
  const imp = get(2);
  if (imp) {
    const q = new R(imp.body); const n = q.leb();
    for (let i = 0; i < n; i++) {
      for (let k = 0; k < 2; k++) { const l = q.leb(); q.p += l; }
      const kind = q.u8();
      if (kind === 0) { impFuncs++; q.skipLeb(); }
      else if (kind === 1) { q.u8(); const f = q.u8(); q.skipLeb(); if (f & 1) q.skipLeb(); }
      else if (kind === 2) { impMems++; const f = q.u8(); q.skipLeb(); if (f & 1) q.skipLeb(); }
      else if (kind === 3) { impGlobals++; q.u8(); q.u8(); }
      else throw new Error('wasmcov: import kind');
    }
  }
  const gsec = get(6), msec = get(5), esec = get(7), csec = get(10);
  const gq = new R(gsec.body); const ng = gq.leb();
  const gSteps = impGlobals + ng, gLimit = gSteps + 1;
  const newG = Buffer.from([...uleb(ng + 2), ...gsec.body.subarray(gq.p),
    0x7e, 1, 0x42, 0, 0x0b, 0x7e, 1, 0x42, ...sleb(1e15), 0x0b]);
  const mq = new R(msec.body); const nm = mq.leb(); const memIdx = impMems + nm;

  let points = 0;
  const fuel = [0x23, ...uleb(gSteps), 0x42, 1, 0x7c, 0x24, ...uleb(gSteps),
    0x23, ...uleb(gSteps), 0x23, ...uleb(gLimit), 0x56, 0x04, 0x40, 0x00, 0x0b];
  const cov = () => [0x41, ...sleb(points++), 0x41, 1, 0x3a, 0x40, ...uleb(memIdx), 0];
  const cq = new R(csec.body); const nf = cq.leb();
  const out = [Buffer.from(uleb(nf))];
  let funcs = 0;
  const starts = [];
  for (let f = 0; f < nf; f++) {
    const size = cq.leb(); const body = csec.body.subarray(cq.p, cq.p + size); cq.p += size;
    const q = new R(body);
    const p0 = points;
    const nl = q.leb(); for (let i = 0; i < nl; i++) { q.skipLeb(); q.u8(); }
    const parts = [body.subarray(0, q.p), Buffer.from([...cov(), ...fuel])];
    funcs++;
    let from = q.p;
    while (q.p < body.length) {
      const op = q.u8();
      skipInstr(q, op);
      let ins = null;
      if (op === 0x03) ins = [...cov(), ...fuel];
      else if (op === 0x04 || op === 0x05 || op === 0x0d) ins = cov();
      if (ins) { parts.push(body.subarray(from, q.p), Buffer.from(ins)); from = q.p; }
    }
    parts.push(body.subarray(from));
    starts.push([p0, points, f]);
    const nb = Buffer.concat(parts);
    out.push(Buffer.from(uleb(nb.length)), nb);
  }
  const newC = Buffer.concat(out);
  // function names (custom "name" section), to tell this crate's points from its dependencies'
  const names = new Map();
  for (const s of secs) {
    if (s.id !== 0) continue;
    const q = new R(s.body); const l = q.leb();
    if (Buffer.from(q.b.subarray(q.p, q.p + l)).toString() !== 'name') continue;
    q.p += l;
    while (q.p < s.body.length) {
      const id = q.u8(); const n = q.leb(); const end = q.p + n;
      if (id === 1) { const c = q.leb(); for (let i = 0; i < c; i++) { const idx = q.leb(); const k = q.leb(); names.set(idx, Buffer.from(q.b.subarray(q.p, q.p + k)).toString()); q.p += k; } }
      q.p = end;
    }
  }
  const own = starts.map(([a, b, f]) => [a, b, names.get(impFuncs + f) || '']).filter(x => /bq2cst/.test(x[2]));
  const pages = Math.ceil(points / 65536) || 1;
  const newM = Buffer.from([...uleb(nm + 1), ...msec.body.subarray(mq.p), 0, ...uleb(pages)]);
  const eq = new R(esec.body); const ne = eq.leb();
  const newE = Buffer.from([...uleb(ne + 3), ...esec.body.subarray(eq.p),
    ...str('__vsteps'), 3, ...uleb(gSteps), ...str('__vlimit'), 3, ...uleb(gLimit), ...str('__vcov'), 2, ...uleb(memIdx)]);
  const repl = new Map([[6, newG], [5, newM], [7, newE], [10, newC]]);
  const res = [Buffer.from(bytes.subarray(0, 8))];
  for (const s of secs) { const b = s.id !== 0 && repl.get(s.id) || s.body; res.push(Buffer.from([s.id, ...uleb(b.length)]), Buffer.from(b)); }
  return { wasm: Buffer.concat(res), points, funcs, own };
}
module.exports = { instrument };
if (require.main === module) {
  const fs = require('fs');
  const { wasm, points, funcs, own } = instrument(fs.readFileSync(process.argv[2]));
  fs.writeFileSync(process.argv[3], wasm);
  console.log(JSON.stringify({ points, funcs, own: own.length, ownPoints: own.reduce((s, x) => s + x[1] - x[0], 0), valid: WebAssembly.validate(wasm) }));
}
