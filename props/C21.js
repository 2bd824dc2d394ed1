'use strict';
const { anyText } = require('../lib/workload.js');
const { reflex } = require('../lib/reflex.js');
// In every accepted script the brackets balance, each closing bracket of the tree closes the
// bracket of its own node, and every `;` ends a statement.
const PAIR = { ')': '(', ']': '[' };
const CLOSE = { '(': ')', '[': ']', '<': '>' };
const B = ['(', ')', '[', ']'];
const SYM = [...B, ';', ';', ';'];
const OTHER = [...SYM, ',', '.', 'x', 'SELECT', 'AS', '1', '<', '>'];
function unbalanced(toks) {
  const st = [];
  for (const y of toks) { if (y.lit === '(' || y.lit === '[') st.push(y); else if (PAIR[y.lit]) { const o = st.pop(); if (!o || o.lit !== PAIR[y.lit]) return y.lit; } else if (y.lit === ';' && st.length) return '; inside ' + st[st.length - 1].lit; }
  return st.length ? st[st.length - 1].lit : null;
}
function check(roots, seen) {
  let bad = null;
  const rec = (n, place, stmt) => {
    if (bad) return;
    const rp = n.children.rparen && n.children.rparen.Node;
    if (rp) { const o = n.token ? n.token.literal : '', c = rp.token ? rp.token.literal : ''; if (CLOSE[o] !== c) { bad = { sig: 'closed by another bracket:' + n.node_type, detail: { open: o, close: c } }; return; } if (seen) seen.add(n.node_type + o); }
    if (n.token && n.token.literal === ';' && !/\.semicolon$/.test(place)) { bad = { sig: '; is not the end of a statement:' + place, detail: { node: n.node_type } }; return; }
    if (n.children.semicolon) { if (!stmt) { bad = { sig: '; on what is no statement of a script or block:' + place, detail: { node: n.node_type } }; return; } if (seen) seen.add(place + ';'); }
    for (const k of Object.keys(n.children)) { const v = n.children[k]; for (const m of v.NodeVec !== undefined ? v.NodeVec : [v.Node]) rec(m, n.node_type + '.' + k, k === 'stmts'); }
  };
  for (const n of roots) rec(n, 'script.', true);
  return bad;
}
module.exports = {
  rule: 'an accepted text with brackets or semicolons (most: a valid script with one bracket or semicolon inserted, removed or put in the place of another token); distinct = distinct sets of (bracketed construct, place of a semicolon)',
  budget: { quick: 400000, thorough: 2500000 },
  run(i, r, ctx) {
    const a = anyText(r, [[4, 'seed'], [6, 'gen'], [2, 'mut'], [0.5, 'soup']]);
    let text = a.text, how = 'as is';
    const l = reflex(text), k = l.toks.filter((x) => !x.comment);
    if (!l.err && k.length) {
      const br = k.filter((x) => B.includes(x.lit) || x.lit === ';');
      const x = r.pick(k), y = br.length ? r.pick(br) : null;
      how = r.weighted([[2, 'remove'], [2, 'replace'], [3, 'insert'], [3, 'overwrite'], [1, 'move'], [1, 'as is']]);
      const cut = (z, s) => text.slice(0, z.start) + ' ' + s + ' ' + text.slice(z.end);
      if (how === 'insert') text = text.slice(0, x.end) + ' ' + r.pick(SYM) + ' ' + text.slice(x.end);
      else if (how === 'overwrite') text = cut(x, r.pick(SYM));
      else if (!y) how = 'as is';
      else if (how === 'remove') text = cut(y, '');
      else if (how === 'replace') text = cut(y, r.pick(OTHER));
      else if (how === 'move') { const z = k[Math.max(0, Math.min(k.length - 1, k.indexOf(y) + r.pick([-2, -1, 1, 2])))]; if (z.start > y.start) text = text.slice(0, y.start) + ' ' + text.slice(y.end, z.end) + ' ' + y.lit + ' ' + text.slice(z.end); else if (z.start < y.start) text = text.slice(0, z.start) + ' ' + y.lit + ' ' + text.slice(z.start, y.start) + ' ' + text.slice(y.end); }
    }
    const res = ctx.t().parse(text);
    ctx.tally('texts', how + ' ' + res.kind);
    if (res.kind !== 'ok') { ctx.count(res.kind === 'err' ? 'rejected_texts' : 'crashed_texts_left_to_C04'); return; }
    const l2 = reflex(text); if (l2.err) { ctx.count('left_to_C03'); return; }
    const seen = new Set();
    const bad = check(res.value, seen), u = unbalanced(l2.toks.filter((x) => !x.comment));
    for (const s of seen) ctx.tally('closed', s);
    ctx.count('accepted_texts');
    if (seen.size) ctx.observed([...seen].sort().join(), text);
    if (bad) ctx.violation({ sig: bad.sig, input: text, detail: bad.detail });
    else if (u) ctx.violation({ sig: 'unbalanced:' + u, input: text, detail: {} });
  },
};
