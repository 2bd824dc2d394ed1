'use strict';
const { NEST, LONG, cycle } = require('../lib/nest.js');
const { pumped } = require('../lib/pump.js');
const NAMES = [...Object.keys(NEST).map((n) => ['nest', n]), ...Object.keys(LONG).map((n) => ['long', n])];
const RATIO = 6; // doubling the size may at most multiply the work by this (quadratic growth is 4)
const DAMAGE = [(a, b) => a + b, (a, b) => a, (a, b) => a + b.slice(0, -1), (a, b) => a + ' ) ' + b, (a, b) => a + ' SELECT ' + b, (a, b) => a + ' , ' + b, (a, b) => a.slice(0, -1) + b, (a, b) => a + b.slice(1)];
function measure(ctx, name, make, sizes, key) {
  const t = ctx.t(), steps = [];
  for (const k of sizes) {
    const text = make(k);
    for (const api of ['parse', 'tokenize']) {
      if (api === 'tokenize' && k !== sizes[sizes.length - 1]) continue;
      t.limit = api === 'parse' && steps.length ? 20 * steps[steps.length - 1] + 1e6 : 2e9;
      const r = t[api](text);
      t.limit = 3e9;
      if (r.kind === 'crash') {
        if (r.over) { ctx.violation({ sig: 'work-explodes:' + key, input: text, detail: { family: name, size: k, steps_before: steps, gave_up_after: r.steps } }); return; }
        ctx.count('stack_exhausted_left_to_C04'); return;
      }
      ctx.max_steps = Math.max(ctx.max_steps || 0, t.steps);
      if (api === 'parse') { steps.push(t.steps); if (k === sizes[sizes.length - 1]) ctx.tally('largest_size', key.split(':')[0] + ' ' + (r.kind === 'ok' ? 'accepted' : 'rejected')); }
    }
  }
  ctx.tally('outcome', key.split(':')[0]);
  ctx.observed(name, name + ' ' + sizes.join('/') + ' -> ' + steps.join('/') + ' steps');
  const n = steps.length;
  const r1 = steps[n - 1] / steps[n - 2], r0 = steps[n - 2] / steps[n - 3];
  ctx.tally('growth_on_doubling', (Math.floor(r1 * 2) / 2).toFixed(1) + 'x');
  if (r1 > RATIO && r0 > RATIO * 0.8) ctx.violation({ sig: 'work-grows-too-fast:' + key, input: make(sizes[0]), detail: { family: name, sizes, steps } });
}
module.exports = {
  rule: 'a family of scripts measured at three or more doubling sizes by an instruction-level step counter; distinct = distinct families',
  budget: { quick: 20000, thorough: 120000 },
  fixedCases: () => NAMES.length,
  minEvaluations: 300,
  assumptions: ['Work is counted as function entries plus loop iterations inside the wasm module, so the verdict does not depend on the machine.'],
  run(i, r, ctx) {
    if (i < NAMES.length) {
      const [kind, n] = NAMES[i];
      const sizes = kind === 'nest' ? [6, 12, 24, 48] : ctx.tier === 'quick' ? [50, 100, 200, 400] : [100, 200, 400, 800];
      measure(ctx, kind + ':' + n, (kind === 'nest' ? NEST : LONG)[n], sizes, kind + ':' + n);
      return;
    }
    if (r.bool(0.6)) {
      const t = ctx.t();
      t.limit = 3e9;
      const p = pumped(r, t);
      if (!p) { ctx.count('nothing_to_pump'); return; }
      const d = r.bool(0.6) ? 0 : r.int(DAMAGE.length);
      const sizes = p.nested ? [8, 16, 32] : [30, 60, 120];
      measure(ctx, 'pumped ' + p.name + (d ? ' #' + d : ''), (k) => { const [a, b] = p.parts(k); return DAMAGE[d](a, b); }, sizes, 'pumped' + (d ? '-damaged' : '') + ':' + p.name);
      return;
    }
    const c = cycle(r), d = r.bool(0.5) ? 0 : r.int(DAMAGE.length);
    const sizes = [8, 16, 32].map((k) => Math.ceil(k / c.len) * c.len);
    measure(ctx, c.name + (d ? ' #' + d : ''), (k) => { const [a, b] = c.parts(k); return DAMAGE[d](a, b); }, sizes, 'cycle' + (d ? '-damaged' : '') + ':' + c.name);
  },
  finish(ctx) { ctx.extra = { max: ctx.max_steps || 0 }; },
  summarise: (x) => ({ max_steps_in_one_call: Math.max(0, ...x.map((e) => e.max)) }),
};
