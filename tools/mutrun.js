'use strict';
// Self-test of the framework (not a check): runs the monitors over a package for a few seconds
// each, in one process, until one of them reports.   node mutrun.js PKG [secs per property] [IDs]
const path = require('path');
const { Rng } = require('../lib/prng.js');
const { Target } = require('../lib/target.js');
const v8 = require('v8'), fs = require('fs'), direct = require('../lib/direct.js');
const CACHE = '/tmp/mut/tables.bin'; // the directed targets, collected once
if (fs.existsSync(CACHE)) Object.assign(direct.tables, v8.deserialize(fs.readFileSync(CACHE)));
else { for (const k of ['stmt', 'query', 'expr', 'type', 'table']) direct.targets(k); fs.writeFileSync(CACHE, v8.serialize(direct.tables)); }
const pkg = process.argv[2], secs = +(process.argv[3] || 4);
const ids = (process.argv[4] || 'C13,C10,C04,C01,C14,C03,C05,C07,C06,C09,C12,C16,C19,C18,C08,C11,C02,C15,C17,C20,C21,C22,C23').split(',');
function quick(id, seed) {
  const prop = require('../props/' + id + '.js');
  const ctx = { tier: 'quick', id, seed, w: 0, W: 1, pkgs: { release: pkg }, n: {}, targets: {}, viol: [], extra: null, hist: {},
    t(name = 'release') { return this.targets[name] || (this.targets[name] = new Target(pkg, { plain: name.endsWith('-plain'), limit: prop.limit || 3e9 })); },
    count() {}, tally() {}, observed() {}, violation(v) { if (v.sig.startsWith('stack-exhausted:paren')) return; this.viol.push(v); } };
  if (prop.init) prop.init(ctx);
  const fixed = prop.fixedCases ? prop.fixedCases('quick') : 0;
  const end = Date.now() + secs * 1000 * (id === 'C13' ? 3 : 1), total = fixed + 1e6;
  const r0 = new Rng('order:' + id + ':' + seed);
  for (let k = 0; Date.now() < end; k++) {
    const i = fixed && k % 2 ? r0.int(fixed) : fixed + k;
    if (i >= total) break;
    ctx.i = i;
    prop.run(i, new Rng(seed + ':' + id + ':' + i), ctx);
    if (ctx.viol.length) return ctx.viol[0];
  }
  if (prop.finish) prop.finish(ctx);
  return ctx.viol[0] || null;
}
for (const id of ids) {
  let v = null;
  try { v = quick(id, 77); } catch (e) { console.log('ERROR ' + id + ' ' + (e && e.stack || e)); continue; }
  if (v) { console.log('KILLED ' + id + ' ' + v.sig + ' ' + JSON.stringify(String(v.input).slice(0, 200))); process.exit(0); }
}
console.log('SURVIVED');
