'use strict';
const { anyText, scriptText, seeds } = require('../lib/workload.js');
const { NEST, LONG, cycle } = require('../lib/nest.js');
const { reflex } = require('../lib/rel.js');
const NAMES = [...Object.keys(NEST).map((n) => ['nest', n]), ...Object.keys(LONG).map((n) => ['long', n])];
// Every call comes back: a value, or a structured error. Never a trap, a foreign
// exception or a hang - in the shipped build and in the one with overflow checks on.
function cause(r) {
  if (r.over) return 'does-not-finish';
  if (/call stack|stack/i.test(r.error) && !r.panic) return 'stack-exhausted';
  const m = /panicked at ([^|]*?)(?:\||$)/.exec(r.panic || '');
  if (m) return 'panic:' + (r.panic.split('|')[1] || m[1]).trim().replace(/\d+/g, 'N').slice(0, 60);
  return 'trap:' + String(r.error).slice(0, 60);
}
function judge(text, ctx, obs) {
  let sig = null, detail = null;
  const out = {};
  for (const b of ['release', 'checked']) for (const api of ['tokenize', 'parse']) {
    const t = ctx.t(b);
    const r = t[api](text);
    if (obs) { ctx.count('calls_' + b); ctx.tally('outcomes', b + ' ' + api + ' ' + r.kind); if (t.steps > (ctx.maxSteps || 0)) ctx.maxSteps = t.steps; }
    out[b + api] = r;
    if (r.kind === 'crash') { sig = cause(r); detail = { build: b, api, error: r.error, panic: r.panic, steps: r.steps }; break; }
  }
  if (!sig) for (const api of ['tokenize', 'parse']) {
    const x = out['release' + api], y = out['checked' + api];
    if (x.kind !== y.kind || (x.kind === 'err' && JSON.stringify(x.value) !== JSON.stringify(y.value))) { sig = 'builds-disagree'; detail = { api, release: x.kind, checked: y.kind }; }
  }
  if (obs) { ctx.tally('by_workload', obs.src + ' ' + (out.releaseparse ? out.releaseparse.kind : 'none')); const l = reflex(text); ctx.observed(text.length ? l.toks.map((t) => (t.comment ? 'c' : t.lit.slice(0, 12).toUpperCase())).join(' ') + (l.err ? '!' : '') : null, text); ctx.lastDetail = detail; }
  return sig;
}
const report = (ctx, text, src) => { const sig = judge(text, ctx, { src }); if (sig) ctx.violation({ sig, input: text, detail: ctx.lastDetail }); };
// recorded finding: recursion is not bounded, so very deep nesting exhausts the stack
const DEEP = [['paren', 5000]];
module.exports = {
  rule: 'a text on which tokenize and parse both returned or threw a plain error object, in two builds; distinct = distinct token sequences',
  builds: ['release', 'checked'],
  budget: { quick: 75000, thorough: 600000 },
  limit: 1e9,
  stackMb: 2,
  fixedCases: () => NAMES.length + seeds.ok.length + DEEP.length,
  judge: (t, ctx) => judge(t, ctx, null),
  assumptions: ['Nesting is bounded (at most 40 levels) and chains of left-associative operators at most 400 long: deeper scripts exhaust the WebAssembly/JavaScript stack, which is recorded as a known finding.'],
  run(i, r, ctx) {
    if (i < DEEP.length) {
      const [n, k] = DEEP[i]; const res = ctx.t('release-plain').parse(NEST[n](k));
      ctx.count('deep_nesting_probes');
      if (res.kind === 'crash') ctx.violation({ sig: 'stack-exhausted:' + n + '-nested-' + k + '-deep', input: 'nest:' + n + ':' + k, detail: { error: res.error } });
      return;
    }
    i -= DEEP.length;
    if (i < NAMES.length) {
      const [kind, n] = NAMES[i]; const f = (kind === 'nest' ? NEST : LONG)[n];
      for (const k of kind === 'nest' ? [1, 2, 3, 10, 40] : [0, 1, 2, 50, 400]) { const s = f(k); report(ctx, s, kind); report(ctx, s.slice(0, Math.ceil(s.length / 2)), kind + '-cut'); }
      return;
    }
    i -= NAMES.length;
    if (i < seeds.ok.length) { // every prefix (at token boundaries) of every corpus statement
      const s = seeds.ok[i], l = reflex(s);
      for (const t of l.toks) { report(ctx, s.slice(0, t.end), 'prefix'); if (ctx.tier === 'thorough' || t.end % 3 === 0) report(ctx, s.slice(t.start), 'suffix'); }
      return;
    }
    if (r.bool(0.04)) { const c = cycle(r); const [a, b] = c.parts(r.range(1, 30)); report(ctx, r.bool(0.5) ? a + b : r.bool() ? a : a + r.pick([' ', ')', ';', ' SELECT ', ',']) + b.slice(r.int(3)), 'cycle'); return; }
    if (r.bool(0.02)) { let s = ''; for (let k = r.range(5, 40); k > 0; k--) s += scriptText(r, { maxFuel: 60 }).text.replace(/;?\s*$/, ';\n'); report(ctx, s, 'long-script'); return; }
    if (r.bool(0.15)) { const s = anyText(r, [[3, 'gen'], [1, 'seed'], [2, 'mut']]).text; const cp = [...s]; report(ctx, cp.slice(0, r.int(cp.length + 1)).join(''), 'cut'); return; }
    const w = anyText(r, [[1, 'gen'], [0.3, 'seed'], [7, 'mut'], [3, 'mutc'], [3, 'soup'], [2.5, 'chars']]);
    report(ctx, w.text, w.src);
  },
  finish(ctx) { ctx.extra = { max: ctx.maxSteps || 0 }; },
  summarise: (x) => ({ max_steps_in_one_call: Math.max(0, ...x.map((e) => e.max)) }),
};
