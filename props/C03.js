'use strict';
const { anyText, OPS } = require('../lib/workload.js');
const { reflex } = require('../lib/reflex.js');
// Token boundaries against an independent reference tokenizer.
function judge(text, ctx, obs) {
  const r = ctx.t().tokenize(text), ref = reflex(text);
  if (r.kind === 'crash') { if (obs) ctx.count('crashed_texts_left_to_C04'); return null; }
  const cls = (s) => (s === undefined ? 'nothing' : /^[A-Za-z_]/.test(s) ? 'word' : /^[0-9]|^\.[0-9]/.test(s) ? 'number' : /^['"]/.test(s) ? 'string' : /^(--|#|\/\*)/.test(s) ? 'comment' : s[0] === '`' ? 'quoted' : s[0] === '{' ? 'template' : s[0] === '@' ? 'parameter' : JSON.stringify(s.slice(0, 3)));
  let sig = null, detail = null;
  if (ref.err) {
    if (r.kind === 'ok') { sig = 'accepted-unfinished-token'; detail = { expected_error_at: ref.err }; }
    else if (r.value.line !== ref.err.line || r.value.column !== ref.err.column) { sig = 'lexical-error-position'; detail = { expected: ref.err, got: r.value }; }
  } else if (r.kind === 'err') { sig = 'rejected-valid-tokens'; detail = r.value; }
  else {
    const g = r.value, e = ref.toks;
    for (let i = 0; i < Math.max(e.length, g.length - 1); i++) {
      const a = e[i], b = g[i];
      if (!a || !b || a.lit !== b.literal || a.line !== b.line || a.column !== b.column) {
        sig = 'boundary:' + cls(a && a.lit) + '/' + cls(b && i < g.length - 1 ? b.literal : undefined); detail = { expected: a && { literal: a.lit, line: a.line, column: a.column }, got: b }; break;
      }
    }
  }
  if (obs) {
    ctx.tally('by_workload', obs.src); ctx.count(ref.err ? 'lexical_errors_compared' : 'token_lists_compared');
    for (const t of ref.toks) ctx.tally('token_classes', cls(t.lit));
    let k = ref.err ? 'E' : ''; for (const t of ref.toks) k += cls(t.lit) + (t.end - t.start < 4 ? t.lit : t.end - t.start) + ' ';
    ctx.observed(text.length > 1 ? k : null, text); ctx.lastDetail = detail;
  }
  return sig;
}
const ATOMS = ['a', '_b1', 'é', '日本', 'R', 'e5', 'x', '1', '0', '12', '3.', '.5', '1e', '1e+', '2E-7', '0x', '0xF', '0XaG', "'s'", '"d"', "''", '""', "'''t'''", '"""u"""', "'\\''", "'\\\\'", "'", '"', '`q`', '``', '`', '@p', '@@s', '@`q`', '@', '#c\n', '--c\n', '/*c*/', '/*/', '/**/', '*/', '\\', '{', '{{', '}', '}}', '{x}', '{{ x }}', '{}', '{1', '{,', '{@p', ' ', '\n', '\u3000', '\u0085', '\ufeff', '🦀',
  'ARRAY', 'array<', 'STRUCT<', 'RANGE<', 'ARRAY<STRUCT<', 't.struct<', ...OPS.filter((x) => x.length < 3 && !'{}@'.includes(x))];
const ALPHA = ["'", '"', '`', '#', '-', '/', '*', '\\', '\n', '{', '}', '@', '.', '<', '>', '=', '|', '!', '0', '1', 'e', 'x', '+', 'a', ' '];
const N = ATOMS.length, A = ALPHA.length;
function nth(list, len, k) { let s = ''; for (let j = 0; j < len; j++) { s += list[k % list.length]; k = Math.floor(k / list.length); } return s; }
// exhaustive part: all pairs of atoms, all strings of length <= 3 over the alphabet;
// thorough: all triples and all strings of length 4
const CH = 400; // texts per case
function plan(tier) {
  const parts = [[ATOMS, 1], [ATOMS, 2], [ALPHA, 1], [ALPHA, 2], [ALPHA, 3]];
  if (tier === 'thorough') parts.push([ATOMS, 3], [ALPHA, 4]);
  return parts.map(([l, n]) => ({ l, n, total: l.length ** n, cases: Math.ceil(l.length ** n / CH) }));
}
module.exports = {
  rule: 'a text whose token list (or lexical error position) was compared with the reference tokenizer; distinct = distinct sequences of token classes and sizes, one-character texts not counted',
  budget: { quick: 260000, thorough: 900000 },
  fixedCases: (tier) => plan(tier).reduce((s, p) => s + p.cases, 0),
  judge: (t, ctx) => judge(t, ctx, null),
  assumptions: ['The reference tokenizer (lib/reflex.js) states BigQuery lexical structure plus {..}/{{..}} templates; a `<` directly after ARRAY, STRUCT or RANGE (not after a dot) opens a type bracket, and `>` closes the innermost open one.'],
  run(i, r, ctx) {
    for (const p of plan(ctx.tier)) {
      if (i < p.cases) {
        for (let k = i * CH; k < Math.min(p.total, (i + 1) * CH); k++) { const text = nth(p.l, p.n, k); ctx.count('exhaustive_texts'); const sig = judge(text, ctx, { src: (p.l === ATOMS ? 'atoms^' : 'alphabet^') + p.n }); if (sig) ctx.violation({ sig, input: text, detail: ctx.lastDetail }); }
        return;
      }
      i -= p.cases;
    }
    const w = r.bool(0.25) ? { src: 'atoms', text: Array.from({ length: r.range(3, 12) }, () => r.pick(ATOMS)).join('') } : anyText(r, [[2, 'gen'], [0.5, 'seed'], [3, 'mut'], [4, 'mutc'], [2, 'soup'], [4, 'chars']]);
    const sig = judge(w.text, ctx, w);
    if (sig) ctx.violation({ sig, input: w.text, detail: ctx.lastDetail });
  },
};
