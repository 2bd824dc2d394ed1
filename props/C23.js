'use strict';
const { anyText, script, mutTokens, randTok } = require('../lib/workload.js');
const { layout, STYLES } = require('../lib/render.js');
const { reflex, EOFN } = require('../lib/rel.js');
// An error is never reported before the place where a script goes wrong: where it shares its first k
// tokens with an accepted script, nothing is wrong with those.
// Words that are read by looking at what follows, and how many tokens they look at; they may be blamed themselves.
const AHEAD = { CREATE: 5, ALTER: 5, FULL: 2, LEFT: 2, INNER: 2, OUTER: 1, NULLS: 1, NOT: 1, EXCEPT: 1, R: 1, B: 1, RB: 1, BR: 1 };
const code = (l) => l.toks.filter((t) => !t.comment);
const glued = (t, k) => k > 0 && t[k - 1].end === t[k].start; // a-b may be one name, a - b is not
const SYM = [')', ']', ';', ',', '(', '[', '.', '*', '=', '<', '>', ':', '|>', 'SELECT', 'FROM', 'END', 'AS', '1', "'s'", 'BEGIN', 'WITH', 'NOT', 'NULL', 'x', 'x y', 'WHERE', 'ON', 'BY'];
function damage(r, text, toks) {
  const d = r.int(toks.length), at = toks[d], pre = text.slice(0, at.start), post = text.slice(at.start), after = text.slice(at.end);
  const tok = () => (r.bool(0.5) ? r.pick(SYM) : randTok(r));
  switch (r.int(8)) {
    case 0: return ['drop', pre + after];
    case 1: case 2: return ['insert', pre + ' ' + tok() + ' ' + post];
    case 3: return ['replace', pre + ' ' + tok() + ' ' + after];
    case 4: return ['cut', pre];
    case 5: { const e = toks[Math.min(toks.length - 1, d + r.range(1, 6))]; return ['drop several', pre + text.slice(e.end)]; }
    case 6: return ['go on otherwise', pre + '\n' + layout(script(r, { maxFuel: 15 }).toks, r, r.pick(STYLES)).text];
    default: { if (d + 1 >= toks.length) return ['double', pre + ' ' + at.lit + ' ' + post]; const n = toks[d + 1]; return ['swap', pre + ' ' + n.lit + ' ' + at.lit + ' ' + text.slice(n.end)]; }
  }
}
module.exports = {
  rule: 'a rejected text that shares its first k tokens with an accepted one, whose error was found at token k or later; distinct = distinct (kind of damage, message without names, token classes around the place)',
  budget: { quick: 80000, thorough: 1500000 },
  run(i, r, ctx) {
    const src = r.bool(0.35) ? 'seed' : 'gen';
    const text = src === 'seed' ? anyText(r, [[1, 'seed']]).text : layout(script(r, { maxFuel: 30, stmts: r.range(1, 2) }).toks, r, r.pick(STYLES)).text;
    const lv = reflex(text); if (lv.err) { ctx.count('not_tokenized'); return; }
    const v = code(lv); if (!v.length) { ctx.count('empty'); return; }
    const x = ctx.t().parse(text);
    if (x.kind !== 'ok') { ctx.count('original_not_accepted'); return; }
    for (let m = 0; m < 3; m++) {
      const [how, bad] = damage(r, text, v);
      const lu = reflex(bad); if (lu.err) { ctx.count('damaged_not_tokenized'); continue; }
      const u = code(lu); let k = 0; while (k < u.length && k < v.length && u[k].lit === v[k].lit && glued(u, k) === glued(v, k)) k++;
      const y = ctx.t().parse(bad);
      if (y.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); continue; }
      if (y.kind === 'ok') { ctx.count('still_accepted'); continue; }
      const e = y.value, end = e.line === EOFN, at = end ? u.length : u.findIndex((t) => t.line === e.line && t.column === e.column);
      if (at < 0) { ctx.count('position_left_to_C05'); continue; }
      ctx.tally('damage', src + ' ' + how);
      ctx.tally('error_after_damage_by', end ? 'end of input' : at < k ? 'word read ahead' : at === k ? '0 tokens' : at - k < 4 ? '1-3 tokens' : at - k < 20 ? '4-19 tokens' : '20 or more tokens');
      ctx.observed(how + '|' + e.message.replace(/Token \{.*/, '') + '|' + u.slice(Math.max(0, k - 2), k + 2).map((t) => t.lit.slice(0, 8)).join(' '), bad);
      if (at >= k) continue;
      const w = AHEAD[u[at].lit.toUpperCase()];
      if (w !== undefined && k - at <= w) continue;
      ctx.violation({ sig: 'error before the damage: ' + e.message.replace(/Token \{.*/, '').slice(0, 50), input: bad, detail: { accepted: text.slice(0, 1500), error: e, at: u.slice(Math.max(0, at - 3), at + 1).map((t) => t.lit).join(' '), first_difference: k, tokens_before_it: k - at, damage: how } });
      return;
    }
  },
  assumptions: ['words that are read by looking ahead (' + Object.keys(AHEAD).join(', ') + ') may be reported themselves when what follows within that distance is wrong'],
};
