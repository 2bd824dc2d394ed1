'use strict';
const { anyText, mutTokens, base, scriptText } = require('../lib/workload.js');
const { flatten, isCommentText, shapeKey } = require('../lib/monitor.js');
const { LINE_C, BLOCK_C, STYLES } = require('../lib/render.js');
const { reflex } = require('../lib/reflex.js');
// Every comment of an accepted script hangs off the right token, in order.
function judge(text, ctx, obs) {
  const r = ctx.t().parse(text);
  if (r.kind !== 'ok') { if (obs) ctx.count(r.kind === 'err' ? 'rejected_texts' : 'crashed_texts_left_to_C04'); return null; }
  const at = (t) => t.line + ':' + t.column;
  const roots = r.value, f = flatten(roots);
  // where the comments are, from the source alone
  const src = reflex(text).toks.filter((t) => t.comment);
  const com = new Set(src.map(at));
  const toks = f.filter((x) => !com.has(at(x.tok)));
  const eof = roots[roots.length - 1];
  const want = new Map(); // node -> {leading_comments: [...], trailing_comments: [...]}
  const add = (n, k, c) => { if (!want.has(n)) want.set(n, { leading_comments: [], trailing_comments: [] }); want.get(n)[k].push(at(c) + ' ' + c.lit); };
  let j = 0, prev = null, lead = 0, trail = 0, end = 0, multi = 0;
  for (const c of src) {
    while (j < toks.length && (toks[j].tok.line < c.line || (toks[j].tok.line === c.line && toks[j].tok.column < c.column))) prev = toks[j++];
    if (prev && prev.tok.line === c.line) { add(prev.n, 'trailing_comments', c); trail++; if (/\n/.test(prev.tok.literal)) multi++; }
    else if (j < toks.length) { add(toks[j].n, 'leading_comments', c); lead++; }
    else { add(eof, 'leading_comments', c); end++; }
  }
  let sig = null, detail = null;
  const rec = (n) => {
    for (const k of ['leading_comments', 'trailing_comments']) {
      const c = n.children[k];
      const got = c ? (c.NodeVec || ['?']).map((x) => (x.token ? at(x.token) + ' ' + x.token.literal : '?')) : [];
      const exp = want.has(n) ? want.get(n)[k] : [];
      if (sig === null && (got.length !== exp.length || got.some((x, i) => x !== exp[i]))) {
        sig = (got.length < exp.length ? 'missing-' : got.length > exp.length ? 'unexpected-' : 'different-') + k; detail = { node: n.node_type, token: n.token, expected: exp, got };
      }
      if (c && c.NodeVec) for (const x of c.NodeVec) if (sig === null && (x.node_type !== 'Comment' || Object.keys(x.children).length)) { sig = 'comment-node-shape'; detail = { type: x.node_type, children: Object.keys(x.children) }; }
    }
    for (const k of Object.keys(n.children)) { if (k === 'leading_comments' || k === 'trailing_comments') continue; const c = n.children[k]; if (c.Node !== undefined) rec(c.Node); else for (const x of c.NodeVec) rec(x); }
  };
  for (const n of roots) rec(n);
  if (obs) {
    ctx.count('leading_comments', lead); ctx.count('trailing_comments', trail); ctx.count('comments_before_end', end); ctx.count('trailing_after_multiline_token_start', multi);
    if (src.length) { ctx.tally('accepted_by_workload', obs.src); ctx.observed(shapeKey(f.map((x) => x.tok)), text); for (const [n, w] of want) { if (w.leading_comments.length) ctx.tally('leading_owner', n.node_type); if (w.trailing_comments.length) ctx.tally('trailing_owner', n.node_type); } } else ctx.count('texts_without_comments');
    ctx.lastDetail = detail;
  }
  return sig;
}
module.exports = {
  rule: 'an accepted text with at least one comment, every comment of which was compared with the owner computed from the source; distinct = distinct token-class sequences (comments included)',
  budget: { quick: 132000, thorough: 700000 },
  judge: (t, ctx) => judge(t, ctx, null),
  run(i, r, ctx) {
    let w;
    if (r.bool(0.55)) w = { src: 'gen', text: scriptText(r, { maxFuel: 50, style: r.pick(STYLES.slice(4)) }).text };
    else if (r.bool(0.6)) { // a corpus statement with comments put into its gaps
      let text = base(r); const l = reflex(text).toks; let out = '', p = 0; const prob = r.pick([0.1, 0.3, 0.8]);
      for (const t of l) { out += text.slice(p, t.start); if (r.bool(prob)) out += (r.bool() ? ' ' : r.pick(['', '\n', ' \n'])) + (r.bool() ? r.pick(BLOCK_C) + r.pick([' ', '\n']) : r.pick(LINE_C) + '\n'); out += text.slice(t.start, t.end); p = t.end; }
      w = { src: 'corpus+comments', text: out + text.slice(p) + (r.bool(0.3) ? ' ' + r.pick(LINE_C) + (r.bool() ? '\n' + r.pick(BLOCK_C) : '') : '') };
    } else w = anyText(r, [[6, 'mut'], [2, 'mutc'], [1, 'soup']]);
    const sig = judge(w.text, ctx, w);
    if (sig) ctx.violation({ sig, input: w.text, detail: ctx.lastDetail });
  },
};
