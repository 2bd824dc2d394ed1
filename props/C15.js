'use strict';
const { anyText } = require('../lib/workload.js');
const { reflex } = require('../lib/reflex.js');
const { stable } = require('../lib/tree.js');
// A call's answer depends on its argument alone: not on earlier calls (accepted, rejected,
// tokenize or parse), not on what a caller did to earlier answers; and calls leave nothing behind.
// a text that resembles another one: what a careless memory of earlier calls would confuse with it
function sibling(r, s) {
  const cp = [...s], l = reflex(s).toks;
  switch (r.int(9)) {
    case 0: case 1: { const w = l.filter((t) => /^[A-Za-z_0-9]+$/.test(t.lit)); if (!w.length) return s + ' '; const t = r.bool(0.5) ? w[w.length - 1] : r.pick(w); const k = t.start + r.int(t.end - t.start); return s.slice(0, k) + r.pick([...'abxyzQ_']) + s.slice(k + 1); } // same length
    case 2: { if (l.length < 2) return s + ';'; const a = r.int(l.length - 1), x = l[a], y = l[a + 1]; return s.slice(0, x.start) + s.slice(y.start, y.end) + s.slice(x.end, y.start) + s.slice(x.start, x.end) + s.slice(y.end); } // same characters
    case 3: return s.toUpperCase() === s ? s.toLowerCase() : s.toUpperCase();
    case 4: return cp.slice(0, r.int(cp.length + 1)).join('');
    case 5: return s + r.pick([' ', ';', '\n', ' x', ' -- c', '\n, 1', ')', "'"]);
    case 6: return r.pick([' ', '\n', '-- c\n', 'SELECT 1;\n', '(']) + s;
    case 7: return s.replace(/\s+/g, () => r.pick([' ', '  ', '\n']));
    default: return cp.slice(r.int(cp.length + 1)).join('');
  }
}
const ser = (x) => x.kind + ' ' + stable(x.value);
function scramble(v, r, depth = 0) { // what a careless caller may do to a value it was given
  if (v === null || typeof v !== 'object' || depth > 12) return;
  for (const k of Object.keys(v)) {
    scramble(v[k], r, depth + 1);
    if (r.bool(0.3)) { if (Array.isArray(v) && r.bool()) v.length = 0; else if (r.bool()) delete v[k]; else v[k] = 'CHANGED'; }
  }
  if (!Array.isArray(v)) v.extra = 1; else v.push({ token: null });
}
module.exports = {
  rule: 'a call inside a history of calls on one instance whose answer was compared with the answer of an instance that had served nothing else; distinct = distinct (previous outcome, this outcome, token classes of the text)',
  budget: { quick: 2700, thorough: 30000 },
  run(i, r, ctx) {
    const t = ctx.t('release-plain');
    if (!ctx.probe) ctx.probe = ctx.t('release'); // second implementation of "fresh": an instance started per history
    t.fresh();
    const n = r.range(4, 14), pool = [];
    for (let k = 0; k < n; k++) pool.push(anyText(r, [[3, 'gen'], [2, 'seed'], [4, 'mut'], [2, 'mutc'], [1, 'soup'], [1, 'chars']]).text);
    for (let k = r.range(1, n); k > 0; k--) pool.push(sibling(r, r.pick(pool)));
    if (r.bool(0.1)) { let s = ''; for (let k = r.range(10, 60); k > 0; k--) s += r.pick(pool).slice(0, 400) + '\n;\n'; pool.push(s); } // one long text among short ones
    const giant = i % 2700 === 3, long = giant || i % 40 === 7; if (long) for (let k = 0; k < pool.length; k++) pool[k] = pool[k].slice(0, 60);
    // answers of instances that have served nothing else
    const want = new Map(), api = ['parse', 'tokenize'];
    const hist = []; for (let k = 0, m = giant ? 70000 : long ? r.range(300, 1500) : r.range(10, 40); k < m; k++) hist.push([r.pick(api), r.int(pool.length)]);
    if (long) ctx.count(giant ? 'histories_of_70000_calls' : 'long_histories');
    let crash = false;
    for (const [f, j] of hist) { const key = f + j; if (want.has(key)) continue; ctx.probe.fresh(); const x = ctx.probe[f](pool[j]); if (x.kind === 'crash') { crash = true; break; } want.set(key, ser(x)); ctx.count('fresh_instances'); }
    if (crash) { ctx.count('crashed_texts_left_to_C04'); return; }
    let prev = 'start';
    const held = [];
    for (const [f, j] of hist) {
      const x = t[f](pool[j]);
      if (x.kind === 'crash') { ctx.violation({ sig: 'crash-after-history', input: pool[j], detail: { history: hist.length, error: x.error } }); return; }
      const got = ser(x);
      const kind = f + ' ' + x.kind;
      ctx.tally('transitions', prev + ' -> ' + kind);
      ctx.observed(prev + '>' + kind + '|' + reflex(pool[j]).toks.map((q) => q.lit.slice(0, 10)).join(' '), pool[j]);
      if (got !== want.get(f + j)) { ctx.violation({ sig: 'answer-depends-on-history:' + kind, input: pool[j], detail: { history: hist.slice(0, hist.findIndex((h) => h[0] === f && h[1] === j)).map((h) => h[0] + ' ' + JSON.stringify(pool[h[1]]).slice(0, 80)), fresh: want.get(f + j).slice(0, 300), now: got.slice(0, 300) } }); return; }
      if (r.bool(0.3)) { scramble(x.value, r); ctx.count('answers_scrambled'); } else if (held.length < 3000) held.push([x, got, pool[j]]);
      prev = kind;
    }
    // an answer once given does not change under later calls
    for (const [x, got, text] of held) { ctx.count('answers_held'); if (ser(x) !== got) { ctx.violation({ sig: 'earlier-answer-changed', input: text, detail: {} }); return; } }
    // no growth: the same work over and over needs no new memory
    if (i % 10 === 0) {
      const lap = () => { for (const [f, j] of hist) t[f](pool[j]); return t.raw.memory.buffer.byteLength; };
      let a; for (let k = 0; k < 8; k++) a = lap();
      let b; for (let k = 0; k < 40; k++) b = lap();
      ctx.count('memory_laps', 48); ctx.count('memory_probes');
      if (b > a) { // tell slow start from a leak: keep going
        const c = (() => { let m; for (let k = 0; k < 160; k++) m = lap(); return m; })();
        const d = (() => { let m; for (let k = 0; k < 160; k++) m = lap(); return m; })();
        if (d > c && c > b) ctx.violation({ sig: 'memory-grows', input: pool.join('\n----\n').slice(0, 4000), detail: { bytes: [a, b, c, d], calls_per_lap: hist.length } });
      }
    }
  },
  assumptions: ['the order in which the children of a node are listed is not part of the answer', 'a history never contains a call that traps (C04)', 'memory is judged by the size of the wasm memory after repeating the same calls'],
};
