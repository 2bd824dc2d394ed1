'use strict';
const { anyText } = require('../lib/workload.js');
const { tiling, shapeKey } = require('../lib/monitor.js');
const EOFN = 4294967295;
function judge(text, ctx, obs) {
  const r = ctx.t().tokenize(text);
  if (r.kind !== 'ok') { if (obs) ctx.count(r.kind === 'err' ? 'rejected_texts' : 'crashed_texts_left_to_C04'); return null; }
  const toks = r.value;
  let d = null;
  if (!Array.isArray(toks) || toks.length < 1) d = { sig: 'no-token-list', detail: typeof toks };
  else {
    const e = toks[toks.length - 1];
    if (e.literal !== '' || e.line !== EOFN || e.column !== EOFN) d = { sig: 'no-end-marker', detail: e };
    else d = tiling(text, toks.slice(0, -1));
  }
  if (obs) {
    ctx.count('tokens_seen', toks.length - 1); ctx.tally('by_workload', obs.src);
    ctx.observed(toks.length > 1 ? shapeKey(toks.slice(0, -1)) : null, text);
  }
  if (!d) return null;
  if (obs) ctx.lastDetail = d.detail;
  return d.sig;
}
module.exports = {
  rule: 'a text the tokenizer accepted, whose token list was laid over the source; distinct = distinct token-class sequences',
  budget: { quick: 264000, thorough: 1500000 },
  judge: (t, ctx) => judge(t, ctx, null),
  run(i, r, ctx) {
    const w = anyText(r, [[2, 'gen'], [0.5, 'seed'], [3, 'mut'], [4, 'mutc'], [2, 'soup'], [4, 'chars']]);
    const sig = judge(w.text, ctx, w);
    if (sig) ctx.violation({ sig, input: w.text, detail: ctx.lastDetail });
  },
};
