'use strict';
// Loads the wasm package that was built from /repo's working tree and exposes it
// exactly as a JavaScript user sees it (the wasm-bindgen glue, unmodified), with the
// extra ability to throw an instance away (after a trap) and start a fresh one.
// The wasm is the instrumented copy (lib/wasmcov.js) unless opts.plain is set.
const fs = require('fs');
const path = require('path');

class Target {
  constructor(dir, opts = {}) {
    this.dir = dir;
    this.glue = fs.readFileSync(path.join(dir, 'bq2cst.js'), 'utf8');
    this.instrumented = !opts.plain && fs.existsSync(path.join(dir, 'inst.wasm'));
    this.module = new WebAssembly.Module(fs.readFileSync(path.join(dir, this.instrumented ? 'inst.wasm' : 'bq2cst_bg.wasm')));
    this.meta = this.instrumented ? JSON.parse(fs.readFileSync(path.join(dir, 'inst.json'), 'utf8')) : null;
    this.limit = opts.limit || 3e9;
    this.instances = 0;
    this.calls = 0;
    this.panicLog = [];
    this.cov = this.instrumented ? new Uint8Array(this.meta.points) : null;
    this.fresh();
  }
  fresh() {
    if (this.raw && this.instrumented) this.mergeCov();
    const mod = { exports: {} };
    const self = this;
    const W = { Module: function () { return self.module; },
      Instance: function (m, imports) { const i = new WebAssembly.Instance(m, imports); self.raw = i.exports; return i; } };
    Object.setPrototypeOf(W, WebAssembly);
    const con = Object.assign(Object.create(console), { error: (...a) => { self.panicLog.push(a.join(' ')); } });
    const fn = new Function('module', 'exports', 'require', '__dirname', 'WebAssembly', 'console', this.glue);
    fn(mod, mod.exports, require, this.dir, W, con);
    this.api = mod.exports;
    this.instances++;
    if (this.instrumented) this.covView = new Uint8Array(this.raw.__vcov.buffer);
  }
  // number of points not seen before by this Target
  mergeCov() {
    const a = this.cov, b = this.covView; let n = 0;
    for (let i = 0; i < a.length; i++) if (b[i]) { if (!a[i]) { a[i] = 1; n++; } }
    b.fill(0, 0, a.length);
    return n;
  }
  // -> {kind:'ok', value} | {kind:'err', value} | {kind:'crash', error, panic, steps}
  // 'err' is a value the API threw on purpose (a plain object); 'crash' is anything else.
  call(fnName, code) {
    this.panicLog.length = 0;
    this.calls++;
    if (this.instrumented) { this.raw.__vsteps.value = 0n; this.raw.__vlimit.value = BigInt(this.limit); }
    try {
      const value = this.api[fnName](code);
      if (this.instrumented) this.steps = Number(this.raw.__vsteps.value);
      return { kind: 'ok', value };
    } catch (e) {
      if (this.instrumented) this.steps = Number(this.raw.__vsteps.value);
      if (e instanceof Error || e === null || typeof e !== 'object') {
        const panic = this.panicLog.join('\n').split('\n').slice(0, 2).join(' | ');
        const over = this.instrumented && this.steps > this.limit;
        this.fresh();
        return { kind: 'crash', error: String(e && e.message || e), name: e && e.name, panic, steps: this.steps, over };
      }
      return { kind: 'err', value: e };
    }
  }
  parse(code) { return this.call('parse', code); }
  tokenize(code) { return this.call('tokenize', code); }
  coverage() {
    if (!this.instrumented) return null;
    this.mergeCov();
    return this.cov;
  }
}
function covSummary(meta, cov) {
  let all = 0; for (const x of cov) all += x;
  let own = 0, ownTot = 0, fns = 0;
  for (const [a, b] of meta.own) { let hit = false; for (let i = a; i < b; i++) { ownTot++; if (cov[i]) { own++; hit = true; } } if (hit) fns++; }
  return { control_flow_points_reached: all, crate_points_reached: own, crate_points_total: ownTot,
    crate_functions_reached: fns, crate_functions_total: meta.own.length };
}
module.exports = { Target, covSummary };
