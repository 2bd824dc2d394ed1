'use strict';
const { anyText } = require('../lib/workload.js');
const { abstract, diff, reflex } = require('../lib/rel.js');
const { recase } = require('../lib/render.js');
// Letter case of words never matters to the structure.
function respell(text, toks, r, mode) {
  let out = '', p = 0, n = 0;
  for (const t of toks) {
    out += text.slice(p, t.start);
    let s = text.slice(t.start, t.end);
    if (/^[A-Za-z_][A-Za-z0-9_]*$/.test(s)) { const q = recase(s, mode === 'rand' ? r.pick(['upper', 'lower', 'title', 'mixed']) : mode, r); if (q !== s) n++; s = q; }
    out += s; p = t.end;
  }
  return [out + text.slice(p), n];
}
module.exports = {
  rule: 'a pair of texts differing only in the case of ASCII words outside quotes, comments and templates, both results compared with case folded; distinct = distinct token sequences (folded)',
  budget: { quick: 99000, thorough: 600000 },
  run(i, r, ctx) {
    const w = anyText(r, [[4, 'gen'], [2, 'seed'], [6, 'mut'], [1, 'mutc'], [1, 'soup']]);
    const l = reflex(w.text);
    if (l.err) { ctx.count('lexical_errors_skipped'); return; }
    const [B, n] = respell(w.text, l.toks, r, r.pick(['rand', 'rand', 'upper', 'lower', 'title', 'mixed']));
    if (!n) { ctx.count('nothing_to_respell'); return; }
    const a = ctx.t().parse(w.text), b = ctx.t().parse(B);
    if (a.kind === 'crash' || b.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); return; }
    const lb = reflex(B);
    const x = abstract(a, l.toks, { fold: true }), y = abstract(b, lb.toks, { fold: true });
    ctx.tally('pairs_by_workload', w.src + ' ' + a.kind); ctx.count('words_respelled', n);
    ctx.observed(l.toks.map((t) => t.lit.toUpperCase()).join(' '), B);
    if (x !== y) ctx.violation({ sig: a.kind === b.kind ? (a.kind === 'ok' ? 'different-tree' : 'different-error') : 'accepted-only-in-one-spelling', input: w.text, detail: { other: B, diff: diff(x, y) } });
    else if (a.kind === 'ok') { // and every literal keeps its own spelling: checked by C01 on both texts
      ctx.count('accepted_pairs');
    }
  },
};
