'use strict';
const { script } = require('../lib/workload.js');
const { layout, attach, STYLES } = require('../lib/render.js');
const { compare } = require('../lib/compare.js');
const { shrink } = require('../lib/shrink.js');
// Every script of the supported grammar is accepted and gets the tree the grammar gives it.
// The grammar (lib/gen) is written from the BigQuery reference and the published node
// types; it produces the token sequence and the expected tree together.
function one(r, ctx, style) {
  const s = script(r, { maxFuel: 80 });
  const lay = layout(s.toks, r, style || r.pick(STYLES));
  const res = ctx.t().parse(lay.text);
  if (res.kind === 'crash') return { s, lay, sig: 'crash', d: { error: res.error, panic: res.panic } };
  if (res.kind === 'err') return { s, lay, sig: 'rejected: ' + String(res.value.message).split('\n')[0].replace(/\d+/g, '_').replace(/`[^`]*`/g, '`_`').slice(0, 80), d: res.value };
  const d = compare(res.value, s.roots, lay, attach(lay, s.toks.length), { noComments: true }); // comments are C06
  return { s, lay, d, sig: d ? d.cat + ' ' + d.path.replace(/\[\d+\]/g, '').split('.').slice(-2).join('.') : null };
}
module.exports = {
  rule: 'a script derived from the reference grammar whose whole tree (node types, tokens and positions, child names, single child or list, order) was compared with the tree returned; distinct = distinct expected tree shapes',
  budget: { quick: 180000, thorough: 600000 },
  run(i, r, ctx) {
    const x = one(r, ctx);
    const shape = (n) => n.t + '(' + Object.keys(n.c).map((k) => k + ':' + (Array.isArray(n.c[k]) ? n.c[k].map(shape).join(',') : shape(n.c[k]))).join(' ') + ')';
    ctx.observed(x.s.roots.map(shape).join(';'), x.lay.text);
    for (const f of x.s.g.feats) ctx.tally('features', f);
    const rec = (n) => { ctx.tally('node_types_compared', n.t); ctx.count('nodes_compared'); for (const k of Object.keys(n.c)) for (const m of Array.isArray(n.c[k]) ? n.c[k] : [n.c[k]]) rec(m); };
    x.s.roots.forEach(rec);
    if (x.sig) ctx.violation({ sig: x.sig, input: x.lay.text, detail: x.d });
  },
  shrinkCase(v, rng, ctx) {
    const sh = shrink(rng, (q) => one(q, ctx).sig, 8000);
    if (!sh) return undefined;
    return one(sh.rng, ctx).lay.text;
  },
};
