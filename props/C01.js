'use strict';
const { anyText } = require('../lib/workload.js');
const { flatten, tiling, shapeKey } = require('../lib/monitor.js');
// The tree of an accepted script, read back in source order, must be the script.
function judge(text, ctx, obs) {
  const r = ctx.t().parse(text);
  if (r.kind !== 'ok') { if (obs) ctx.count(r.kind === 'err' ? 'rejected_texts' : 'crashed_texts_left_to_C04'); return null; }
  const f = flatten(r.value);
  const d = tiling(text, f.map((x) => x.tok));
  if (obs) {
    ctx.count('tokens_seen', f.length); ctx.tally('accepted_by_workload', obs.src);
    for (const x of f) ctx.tally('node_types', x.n.node_type);
    ctx.observed(f.length ? shapeKey(f.map((x) => x.tok)) : null, text);
  }
  if (!d) return null;
  if (obs) ctx.lastDetail = d.detail;
  return d.sig;
}
module.exports = {
  rule: 'an accepted text whose tree was flattened and laid over the source; distinct = distinct token-class sequences',
  budget: { quick: 240000, thorough: 900000 },
  judge: (t, ctx) => judge(t, ctx, null),
  run(i, r, ctx) {
    const w = anyText(r);
    const sig = judge(w.text, ctx, w);
    if (sig) ctx.violation({ sig, input: w.text, detail: ctx.lastDetail });
  },
};
