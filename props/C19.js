'use strict';
const { script } = require('../lib/workload.js');
const { layout, STYLES } = require('../lib/render.js');
// A script in which one token was replaced so that a bracket is closed by another kind of
// bracket, a block by the END of another block, or a statement begins with a word that begins
// no statement, is rejected.
const OTHER = { ')': [']', '}'], ']': [')', '}'] };
const BLOCKS = ['IF', 'LOOP', 'WHILE', 'REPEAT', 'FOR', 'CASE'];
const STARTS = new Set(('WITH SELECT FROM INSERT DELETE TRUNCATE UPDATE MERGE CREATE ALTER DROP UNDROP GRANT REVOKE DECLARE SET EXECUTE BEGIN COMMIT ROLLBACK LOOP REPEAT WHILE BREAK LEAVE CONTINUE ' +
  'ITERATE FOR IF CASE RAISE RETURN CALL ASSERT EXPORT LOAD').split(' '));
// (not right after `(` or `,`: there the wrong bracket stands where an operand may)
function sites(roots, toks) {
  const out = { close: [], block: [], start: [] };
  const first = (n) => { let lo = n.k === null ? Infinity : n.k; for (const k of Object.keys(n.c)) for (const x of Array.isArray(n.c[k]) ? n.c[k] : [n.c[k]]) lo = Math.min(lo, first(x)); return lo; };
  const rec = (n) => {
    if (n.c.rparen && !Array.isArray(n.c.rparen) && OTHER[toks[n.c.rparen.k].lit] && !['(', '[', ','].includes(toks[n.c.rparen.k - 1].lit)) out.close.push([n.c.rparen.k, n.t]);
    for (const k of Object.keys(n.c)) {
      if (/^end_/.test(k) && Array.isArray(n.c[k]) && n.c[k].length === 2) out.block.push([n.c[k][1].k, n.t]);
      if (k === 'stmts') for (const x of n.c[k]) out.start.push([first(x), x.t]);
      for (const x of Array.isArray(n.c[k]) ? n.c[k] : [n.c[k]]) rec(x);
    }
  };
  for (const n of roots) { out.start.push([first(n), n.t]); rec(n); }
  out.start = out.start.filter(([k]) => STARTS.has(toks[k].lit.toUpperCase()) && toks[k].kind === 'kw' && !(toks[k + 1] && toks[k + 1].lit === ':'));
  return out;
}
function misspell(r, w) {
  for (let m = 0; m < 20; m++) {
    const i = r.int(w.length); let x;
    switch (r.int(4)) { case 0: x = w.slice(0, i) + w.slice(i + 1); break; case 1: x = w.slice(0, i) + w[i] + w.slice(i); break; case 2: x = w.slice(0, i) + r.pick([...'AEXQ_1']) + w.slice(i + 1); break; default: x = w + r.pick(['S', 'X', '_', '1']); }
    if (x && /^[A-Z_]/.test(x) && !STARTS.has(x)) return x;
  }
  return w + 'X';
}
module.exports = {
  rule: 'a valid script with one closing bracket, END word or statement keyword replaced by a wrong one; distinct = distinct (kind of replacement, construct, replaced and replacing token, tokens around it)',
  budget: { quick: 108000, thorough: 800000 },
  run(i, r, ctx) {
    const s = script(r, { maxFuel: 40, stmts: r.range(1, 3) });
    const st = sites(s.roots, s.toks);
    for (let m = 0; m < 4; m++) {
      const kind = r.weighted([[4, 'close'], [2, 'block'], [3, 'start']]);
      if (!st[kind].length) { ctx.count('no_site:' + kind); continue; }
      const [k, t] = r.pick(st[kind]), old = s.toks[k];
      const lit = kind === 'close' ? r.pick(OTHER[old.lit]) : kind === 'block' ? r.pick(BLOCKS.filter((b) => b !== old.lit.toUpperCase())) : misspell(r, old.lit.toUpperCase());
      const toks = s.toks.slice(); toks[k] = { lit, kind: kind === 'close' ? 'op' : kind === 'start' ? 'id' : 'kw' };
      const text = layout(toks, r, r.pick(STYLES)).text;
      const res = ctx.t().parse(text);
      if (res.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); continue; }
      ctx.tally('replaced', kind + ' ' + t);
      ctx.observed([kind, t, old.lit, lit, k ? toks[k - 1].lit : '^', toks[k + 1] ? toks[k + 1].lit : '$'].join('|'), text);
      if (res.kind === 'ok') ctx.violation({ sig: 'accepted:' + kind + ':' + t, input: text, detail: { was: old.lit, is: lit, token: k } });
    }
  },
};
