'use strict';
const { NEST, LONG, cycle } = require('../lib/nest.js');
const { pumped } = require('../lib/pump.js');
const { walk } = require('../lib/tree.js');
// No construct is limited in length or nesting: once a family of scripts has shown its law at small
// sizes (accepted, and the same nodes added by every further repetition), larger sizes obey it.
const NAMES = [...Object.keys(NEST).map((n) => ['nest', n]), ...Object.keys(LONG).map((n) => ['long', n])];
const DEEP = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24, 25, 30, 31, 32, 33, 40, 41, 48, 50, 51, 60, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300];
const FAR = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 250, 255, 256, 257, 300, 400];
const CHEAP = /^(whitespace|long_|template|triple_string|line_comments|trailing_comments|statements|select_list|args|array_elems|values|columns|options_list|strings|commented_items|block)/; // no nesting in the result
const HUGE = { quick: [512, 1000, 1024, 1025, 4097], thorough: [512, 1000, 1024, 1025, 4096, 4097, 10001] }, GIANT = /^(whitespace|long_|template|triple_string)/;
function histogram(roots) { const h = new Map(); for (const n of roots) walk(n, (m, p, key) => { const k = (key || '') + ':' + m.node_type; h.set(k, (h.get(k) || 0) + 1); }); return h; }
function differs(a, b, ka, kb, c, k) { // c against the line through a and b
  for (const x of new Set([...a.keys(), ...b.keys(), ...c.keys()])) {
    const va = a.get(x) || 0, vb = b.get(x) || 0, want = va + (vb - va) / (kb - ka) * (k - ka), got = c.get(x) || 0;
    if (got !== want) return { node: x, got, want };
  }
  return null;
}
function law(ctx, name, make, base, larger, key, strict) {
  const t = ctx.t();
  const at = (k) => { const text = make(k), x = t.parse(text); return { text, x, h: x.kind === 'ok' ? histogram(x.value) : null }; };
  const b = base.map(at);
  if (b.some((v) => v.x.kind === 'crash')) { ctx.count('stack_exhausted_left_to_C04'); return; }
  if (b.some((v) => !v.h)) {
    if (!strict) { ctx.count('small_sizes_rejected'); return; }
    const v = b.find((w) => !w.h); ctx.violation({ sig: 'rejected:' + key, input: v.text, detail: { family: name, message: v.x.value && v.x.value.message } }); return;
  }
  const n = b.length;
  for (let i = 2; i < n; i++) if (differs(b[n - 2].h, b[n - 1].h, base[n - 2], base[n - 1], b[i - 2].h, base[i - 2])) { if (!strict) { ctx.count('no_law_at_small_sizes'); return; } }
  for (const k of larger) {
    const v = at(k);
    if (v.x.kind === 'crash') { ctx.count('stack_exhausted_left_to_C04'); return; }
    ctx.observed(name + '@' + k, name + ' at size ' + k);
    ctx.tally('sizes', key.split(':')[0] + (k < 10 ? ' <10' : k < 32 ? ' <32' : k < 100 ? ' <100' : k < 1000 ? ' <1000' : k < 65536 ? ' <65536' : ' >=65536'));
    if (!v.h) { ctx.violation({ sig: 'rejected-when-larger:' + key, input: v.text.slice(0, 3000), detail: { family: name, size: k, accepted_at: base, message: v.x.value && v.x.value.message } }); return; }
    const d = differs(b[n - 2].h, b[n - 1].h, base[n - 2], base[n - 1], v.h, k);
    if (d) { ctx.violation({ sig: 'other-nodes-when-larger:' + key, input: v.text.slice(0, 3000), detail: { family: name, size: k, law_from: base, ...d } }); return; }
  }
}
module.exports = {
  rule: 'a script of a family at one size, accepted and with exactly the nodes the law of the small sizes gives; distinct = distinct (family, size)',
  budget: { quick: 14000, thorough: 120000 },
  fixedCases: () => NAMES.length,
  minEvaluations: 300,
  assumptions: ['sizes stay below the depth at which the stack is exhausted (known finding of C04)'],
  run(i, r, ctx) {
    if (i < NAMES.length) {
      const [kind, n] = NAMES[i];
      const larger = kind === 'nest' ? DEEP : FAR.concat(CHEAP.test(n) ? HUGE[ctx.tier] || HUGE.quick : [], GIANT.test(n) ? [65535, 65537] : []);
      law(ctx, kind + ':' + n, (kind === 'nest' ? NEST : LONG)[n], [2, 3], larger, kind + ':' + n, true);
      return;
    }
    if (r.bool(0.3)) {
      const c = cycle(r), L = c.len, max = Math.floor(80 / L);
      law(ctx, c.name, c.make, [L, 2 * L, 3 * L, 4 * L], [r.range(5, Math.max(5, max)), r.range(5, Math.max(5, max))].map((m) => m * L), 'cycle:' + c.name, false);
      return;
    }
    const t = ctx.t(), p = pumped(r, t, true);
    if (!p) { ctx.count('nothing_to_pump'); return; }
    const hi = p.nested ? 30 : r.int(20) === 0 ? 300 : 60;
    law(ctx, 'pumped ' + p.name, (k) => p.parts(k).join(''), [1, 2, 3, 4], [r.range(5, hi), r.range(5, hi)], 'pumped:' + p.name, false);
  },
};
