'use strict';
const { script, scriptText } = require('../lib/workload.js');
const { layout, STYLES } = require('../lib/render.js');
// A script cut off inside an open bracket, block or quoted token is rejected.
const CLOSERS = ['rparen', 'rbrace', 'end', 'end_if', 'end_loop', 'end_while', 'end_repeat', 'end_for', 'end_case'];
function spans(roots) { // [first token, token of the closer, node_type.key]
  const out = [];
  const rec = (n) => {
    let lo = n.k === null ? Infinity : n.k, hi = n.k === null ? -1 : n.k;
    const ends = [];
    for (const k of Object.keys(n.c)) {
      const v = n.c[k];
      for (const x of Array.isArray(v) ? v : [v]) { const [a, b] = rec(x); lo = Math.min(lo, a); hi = Math.max(hi, b); }
      if (CLOSERS.includes(k)) ends.push([Array.isArray(v) ? v[v.length - 1].k : v.k, k]);
    }
    // what is open starts at the node's own token (the bracket or BEGIN, CASE, ... itself)
    for (const [e, k] of ends) if (n.k !== null && n.k + (n.t === 'BeginStatement' ? 1 : 0) < e) out.push([n.t === 'BeginStatement' ? n.k + 1 : n.k, e, n.t + '.' + k]); // BEGIN alone starts a transaction
    return [lo, hi];
  };
  for (const n of roots) rec(n);
  return out;
}
module.exports = {
  rule: 'a valid script cut at a token boundary inside an open bracket or block, or inside a quoted token or block comment; distinct = distinct (innermost open construct, last two tokens kept)',
  budget: { quick: 108000, thorough: 800000 },
  run(i, r, ctx) {
    const s = script(r, { maxFuel: 40, stmts: r.range(1, 2) });
    const sp = spans(s.roots);
    for (let m = 0; m < 4; m++) {
      if (r.bool(0.8)) {
        if (!sp.length) { ctx.count('scripts_without_brackets'); return; }
        const [a, e] = r.pick(sp);
        const cut = r.range(a, e - 1);
        let open = null; for (const x of sp) if (x[0] <= cut && cut < x[1] && (!open || x[0] > open[0])) open = x;
        const lay = layout(s.toks.slice(0, cut + 1), r, r.pick(STYLES));
        const res = ctx.t().parse(lay.text);
        if (res.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); continue; }
        ctx.tally('cut_inside', open[2]); ctx.count('cuts_inside_brackets_or_blocks');
        ctx.observed(open[2] + '|' + s.toks.slice(Math.max(0, cut - 1), cut + 1).map((t) => t.lit).join(' '), lay.text);
        if (res.kind === 'ok') ctx.violation({ sig: 'accepted-cut-inside:' + open[2], input: lay.text, detail: { open: open[2], last: s.toks[cut].lit } });
      } else { // cut inside a quoted token
        const q = []; s.toks.forEach((t, k) => { if (['str', 'qid', 'tmpl'].includes(t.kind) && t.lit.length > 2) q.push(k); });
        const lay = layout(s.toks, r, r.pick(STYLES));
        const com = lay.comments.filter((c) => c.lit.startsWith('/*'));
        const src = [...lay.text]; const lines = [0]; src.forEach((c, j) => { if (c === '\n') lines.push(j + 1); });
        let p = null, lit = null;
        if (com.length && r.bool(0.4)) { const c = r.pick(com); p = c; lit = c.lit; } else if (q.length) { const k = r.pick(q); p = lay.pos[k]; lit = lay.lits[k]; }
        if (!p) { ctx.count('scripts_without_quoted_tokens'); continue; }
        const cps = [...lit]; let len = r.range(1, cps.length - 1);
        const kept = cps.slice(0, len).join('');
        // '' is complete, and so is ''' + ... only when closed: skip cuts that leave a complete token
        if (/^(''|"")$/.test(kept) || (lit[0] === '{' && /^\{[@,0-9]|^\{$/.test(kept) && kept.length > 1) || kept === '/' || (lit[0] === '{' && kept === '{' && false)) continue;
        const end = lines[p.line - 1] + p.column - 1 + len;
        const text = src.slice(0, end).join('');
        const res = ctx.t().tokenize(text), res2 = ctx.t().parse(text);
        if (res.kind === 'crash' || res2.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); continue; }
        ctx.count('cuts_inside_quoted_tokens'); ctx.tally('cut_quoted', lit[0]);
        ctx.observed('q' + kept, text.slice(-80));
        if (res.kind === 'ok' || res2.kind === 'ok') ctx.violation({ sig: 'accepted-cut-quoted:' + lit[0], input: text, detail: { kept } });
      }
    }
  },
};
