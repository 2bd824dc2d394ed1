'use strict';
const { anyText } = require('../lib/workload.js');
const { flatten, isCommentText, shapeKey } = require('../lib/monitor.js');
// Every subtree covers one unbroken stretch of the script, and lists are in source order.
function judge(text, ctx, obs) {
  const r = ctx.t().parse(text);
  if (r.kind !== 'ok') { if (obs) ctx.count(r.kind === 'err' ? 'rejected_texts' : 'crashed_texts_left_to_C04'); return null; }
  const f = flatten(r.value), idx = new Map();
  let k = 0;
  for (const x of f) if (x.n.node_type !== 'Comment') idx.set(x.n, k++);
  let sig = null, detail = null, nodes = 0, lists = 0;
  const bad = (s, d) => { if (sig === null) { sig = s; detail = d; } };
  const rec = (n) => { // -> [min, max, count]
    nodes++;
    let lo = Infinity, hi = -1, cnt = 0;
    if (n.token !== null) { lo = hi = idx.get(n); cnt = 1; }
    for (const key of Object.keys(n.children)) {
      if (key === 'leading_comments' || key === 'trailing_comments') continue;
      const c = n.children[key];
      if (c.Node !== undefined) { const [a, b, m] = rec(c.Node); if (m) { lo = Math.min(lo, a); hi = Math.max(hi, b); cnt += m; } } else {
        let prev = -1; if (c.NodeVec.length > 1) lists++;
        for (const x of c.NodeVec) { const [a, b, m] = rec(x); if (!m) continue; if (a <= prev) bad('list-out-of-order:' + n.node_type + '.' + key, { at: x.token }); prev = b; lo = Math.min(lo, a); hi = Math.max(hi, b); cnt += m; }
      }
    }
    if (cnt && hi - lo + 1 !== cnt) bad('not-contiguous:' + n.node_type, { at: n.token, tokens: cnt, span: hi - lo + 1 });
    return [lo, hi, cnt];
  };
  let prev = -1;
  for (const n of r.value) { const [a, b, m] = rec(n); if (m) { if (a !== prev + 1) bad('statements-out-of-order', { at: n.token }); prev = b; } }
  if (obs) { ctx.count('nodes_checked', nodes); ctx.count('lists_checked', lists); ctx.tally('accepted_by_workload', obs.src); ctx.observed(f.length > 1 ? shapeKey(f.map((x) => x.tok)) : null, text); ctx.lastDetail = detail; }
  return sig;
}
module.exports = {
  rule: 'an accepted text with at least two tokens, all of whose subtrees were checked; distinct = distinct token-class sequences',
  budget: { quick: 240000, thorough: 900000 },
  judge: (t, ctx) => judge(t, ctx, null),
  run(i, r, ctx) { const w = anyText(r); const sig = judge(w.text, ctx, w); if (sig) ctx.violation({ sig, input: w.text, detail: ctx.lastDetail }); },
};
