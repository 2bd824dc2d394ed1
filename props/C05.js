'use strict';
const { anyText } = require('../lib/workload.js');
const { errIndex, reflex } = require('../lib/rel.js');
// Rejections carry a well-formed error that points into the script.
function judge(text, ctx, obs) {
  const t = ctx.t(), a = t.tokenize(text), b = t.parse(text);
  if (a.kind === 'crash' || b.kind === 'crash') { if (obs) ctx.count('crashed_texts_left_to_C04'); return null; }
  let sig = null, detail = null; const bad = (s, d) => { if (!sig) { sig = s; detail = d; } };
  const shape = (e, who) => {
    const keys = Object.keys(e).sort().join();
    if (keys !== 'column,line,message') bad(who + '-error-keys', { keys });
    else if (!Number.isInteger(e.line) || !Number.isInteger(e.column) || e.line < 1 || e.column < 1) bad(who + '-error-position-type', e);
    else if (typeof e.message !== 'string' || e.message.trim() === '') bad(who + '-error-message', e);
  };
  if (a.kind === 'err') {
    shape(a.value, 'lexical');
    const cp = [...text]; let line = 1, col = 1; const pts = new Set(['1:1']);
    for (const c of cp) { if (c === '\n') { line++; col = 1; } else col++; pts.add(line + ':' + col); }
    if (!pts.has(a.value.line + ':' + a.value.column)) bad('lexical-error-outside-script', a.value);
    else { // the end of the text where something is still open there, or the place where the name of a parameter should begin
      const ref = reflex(text.toWellFormed());
      if (ref.err && (ref.err.line !== a.value.line || ref.err.column !== a.value.column)) bad('lexical-error-at-wrong-place', { error: a.value, expected: ref.err });
      if (obs && ref.err) ctx.count('lexical_error_positions_checked');
    }
    if (b.kind !== 'err') bad('parse-accepts-what-tokenize-rejects', a.value);
    else if (JSON.stringify(a.value) !== JSON.stringify(b.value)) bad('parse-and-tokenize-disagree', { tokenize: a.value, parse: b.value });
    if (obs) { ctx.count('lexical_errors'); ctx.observed('lex ' + a.value.message + ' ' + text.slice(-6), text); }
  } else if (b.kind === 'err') {
    shape(b.value, 'syntax');
    const toks = a.value.slice(0, -1).map((x) => ({ line: x.line, column: x.column, lit: x.literal, comment: /^(--|#|\/\*)/.test(x.literal) }));
    const i = errIndex(b.value, toks);
    if (i === -1) bad('syntax-error-points-at-no-token', b.value);
    else if (i === 'comment') bad('syntax-error-points-at-comment', b.value);
    // positions quoted in the message are the one reported
    for (const m of String(b.value.message).matchAll(/line: (\d+), column: (\d+), literal: "/g)) { if (obs) ctx.count('positions_quoted_in_messages'); if (+m[1] !== b.value.line || +m[2] !== b.value.column) bad('message-quotes-another-position', b.value); }
    if (obs) { ctx.count('syntax_errors'); if (i === 'eof') ctx.count('syntax_errors_at_end'); const code = toks.filter((x) => !x.comment); ctx.tally('messages', String(b.value.message).replace(/Token \{.*\}/, 'Token').slice(0, 60)); ctx.observed(String(b.value.message).replace(/Token \{.*?literal/, '').slice(0, 50) + (typeof i === 'number' ? code.slice(Math.max(0, i - 2), i + 1).map((x) => x.lit).join(' ') : code.slice(-2).map((x) => x.lit).join(' ')), text); }
  } else if (obs) ctx.count('accepted_texts');
  if (obs) { ctx.tally('by_workload', obs.src); ctx.lastDetail = detail; }
  return sig;
}
module.exports = {
  rule: 'a rejected text whose error object and location were checked; distinct = distinct (message, tokens around the location)',
  budget: { quick: 260000, thorough: 900000 },
  judge: (t, ctx) => judge(t, ctx, null),
  run(i, r, ctx) { const w = anyText(r, [[0.3, 'gen'], [0.2, 'seed'], [7, 'mut'], [3, 'mutc'], [3, 'soup'], [2, 'chars']]); const sig = judge(w.text, ctx, w); if (sig) ctx.violation({ sig, input: w.text, detail: ctx.lastDetail }); },
};
