'use strict';
const { anyText, script } = require('../lib/workload.js');
const { abstract, diff, reflex } = require('../lib/rel.js');
const { layout, STYLES, WS_WILD, LINE_C, BLOCK_C } = require('../lib/render.js');
const OPEN = new Set(['(', ')', ',', ';', '[', ']']);
function trivia(r, comments) {
  let s = '';
  for (let k = r.weighted([[6, 1], [2, 2], [1, 3]]); k > 0; k--) s += !comments || r.bool(0.55) ? r.pick(WS_WILD) : r.bool() ? ' ' + r.pick(BLOCK_C) + r.pick(['', ' ', '\n']) : ' ' + r.pick(LINE_C) + '\n';
  return s;
}
// the same tokens with other trivia in the gaps that had some, and around punctuation
// loose: the script is valid SQL, so punctuation may also gain or lose the trivia beside it
function relayout(text, l, r, loose) {
  const code = l.toks.filter((t) => !t.comment); let out = '';
  const comments = r.bool(0.6), squash = loose && r.bool(0.25);
  for (let i = 0; i < code.length; i++) {
    const t = code[i], p = code[i - 1];
    if (i === 0) { if (r.bool(0.4)) out += trivia(r, comments); } else if (p.end !== t.start) {
      // trivia here: whatever it is, it may be different trivia; beside punctuation it may go
      if (squash && (OPEN.has(p.lit) || OPEN.has(t.lit)) && /^[A-Za-z_('"`)\[\],;]/.test(t.lit) && /[A-Za-z_('"`)\[\],;]$/.test(p.lit)) out += '';
      else out += trivia(r, comments);
    } else if (loose && (OPEN.has(p.lit) || OPEN.has(t.lit)) && r.bool(0.3)) out += trivia(r, comments);
    out += text.slice(t.start, t.end);
  }
  if (r.bool(0.4)) out += trivia(r, comments);
  return out;
}
module.exports = {
  rule: 'a pair of texts with the same tokens but different whitespace/comments, both results compared; distinct = distinct token sequences',
  assumptions: ['Gaps that held no trivia stay empty (except beside ( ) [ ] , ; in valid scripts) because a-b, a.b, r\'x\' and `>>` are written without gaps on purpose.'],
  budget: { quick: 99000, thorough: 600000 },
  run(i, r, ctx) {
    let A, B, src;
    if (r.bool(0.3)) { const s = script(r, { maxFuel: 60 }); A = layout(s.toks, r, r.pick(STYLES)).text; B = layout(s.toks, r, Object.assign({}, r.pick(STYLES))).text; src = 'gen';
      // same spelling in both: only trivia may differ
      const st = { ws: r.pick(['canon', 'tight', 'plain', 'wild']), kwcase: 'asis', comments: r.pick([0, 0.2]), edge: true }; A = layout(s.toks, r, st).text; B = layout(s.toks, r, { ws: r.pick(['canon', 'tight', 'plain', 'wild']), kwcase: 'asis', comments: r.pick([0, 0.3]), edge: true }).text;
    } else { const w = anyText(r, [[1, 'gen'], [2, 'seed'], [6, 'mut'], [1.5, 'mutc'], [1.5, 'soup']]); A = w.text; src = w.src; const l = reflex(A); if (l.err) { ctx.count('lexical_errors_skipped'); return; } B = relayout(A, l, r, src === 'gen' || src === 'seed'); }
    const la = reflex(A), lb = reflex(B);
    if (la.err || lb.err || la.toks.filter((t) => !t.comment).map((t) => t.lit).join('\0') !== lb.toks.filter((t) => !t.comment).map((t) => t.lit).join('\0')) { ctx.count('layouts_with_other_tokens_skipped'); return; }
    const a = ctx.t().parse(A), b = ctx.t().parse(B);
    if (a.kind === 'crash' || b.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); return; }
    const x = abstract(a, la.toks), y = abstract(b, lb.toks);
    ctx.tally('pairs_by_workload', src + ' ' + a.kind);
    ctx.observed(la.toks.filter((t) => !t.comment).map((t) => t.lit).join(' '), A);
    if (x !== y) { const kind = a.kind === b.kind ? (a.kind === 'ok' ? 'different-tree' : 'different-error') : 'accepted-only-in-one-layout'; ctx.violation({ sig: kind, input: A, detail: { other: B, diff: diff(x, y) } }); }
  },
};
