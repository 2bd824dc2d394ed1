'use strict';
// Workloads: texts to run the library on. Every text is a function of the Rng only.
const { Gen, RESERVED, SOFT_IDS } = require('./gen/core.js');
require('./gen/expr.js'); require('./gen/query.js'); require('./gen/stmt.js');
const { layout, attach, STYLES, WS_WILD, LINE_C, BLOCK_C } = require('./render.js');
const { reflex } = require('./reflex.js');
const { direct } = require('./direct.js');
const seeds = require('../corpus/seeds.json');

const OPS = ['+', '-', '*', '/', '||', '|', '&', '^', '~', '<<', '>>', '=', '<', '>', '<=', '>=', '!=', '<>', '=>', '|>', '.', ',', ';', '(', ')', '[', ']', '{', '}', '?', ':', '!', '%', '$', '\\', '@', '->'];
const LITS = ['1', '0', '42', '3.14', '.5', '1e10', '0xFF', "'s'", '"d"', "'''t'''", '`q`', '`p.d.t`', '@p', '@@sys', '{{ x }}', '{x}', '{}', 'NULL', 'TRUE', "r'x'", 'b"y"', '{2,3}', '{1,}', '{,4}'];
const WORDS = [...new Set([...RESERVED, ...SOFT_IDS.map((s) => s.toUpperCase()), 'a', 'b', 'col', 't', 'x1', ...seedWords()])];
function seedWords() {
  const out = new Set();
  for (const s of seeds.ok) { const l = reflex(s); for (const t of l.toks) if (/^[A-Za-z_]+$/.test(t.lit)) out.add(t.lit.toUpperCase()); }
  return out;
}
const CHARS = [...'\'"`#-/*\\{}@.<>|=!()[];,+&^~?:$%_aAeExXrRbB019 \n\t\r', 'é', 'ß', '日', '🦀', '\u0301', '\u3000', '\u0085', '\u2028', '\ufeff', '\u200b', '\u00a0', 'ſ', 'ı', 'K', '\u0000', '\u007f', '�', '٣', '²', 'Ⅷ', 'ª', '_', 'À', '𝒳', '😀', '́'];

function script(r, o = {}) { // a valid script with its expected tree
  const g = new Gen(r, { fuel: o.fuel || r.range(5, o.maxFuel || 80), noTmpl: o.noTmpl });
  const roots = [];
  const m = o.stmts || (r.int(150) === 0 ? r.range(6, 30) : r.range(1, 3));
  const aim = r.bool(0.5) ? r.int(m) : -1; // one statement directed at a rarely taken decision
  for (let k = 0; k < m; k++) {
    if (k === aim) direct(g, r, o.query ? 'query' : 'stmt');
    const n = o.query ? g.query() : g.statement();
    g.r = r;
    if (k < m - 1 || (o.semi === undefined ? r.bool() : o.semi)) g.semi(n);
    roots.push(n);
  }
  return { g, roots, toks: g.toks };
}
function scriptText(r, o = {}) {
  const s = script(r, o);
  s.lay = layout(s.toks, r, o.style || r.pick(STYLES));
  s.att = attach(s.lay, s.toks.length);
  s.text = s.lay.text;
  return s;
}
// ---- mutation
function pieces(text) { // [gap, token, gap, token, ..., gap]
  const l = reflex(text), out = []; let p = 0;
  for (const t of l.toks) { out.push(text.slice(p, t.start), text.slice(t.start, t.end)); p = t.end; }
  out.push(text.slice(p));
  return out;
}
const base = (r) => (r.bool(0.55) ? r.pick(seeds.ok) : scriptText(r, { maxFuel: 30, stmts: r.range(1, 2) }).text);
const randTok = (r) => r.weighted([[6, () => { const w = r.pick(WORDS); return r.bool(0.3) ? w.toLowerCase() : w; }], [4, () => r.pick(OPS)], [2, () => r.pick(LITS)]])();
function mutTokens(r, text, n) {
  let ps = pieces(text);
  for (let k = 0; k < n; k++) {
    const T = (ps.length - 1) >> 1;
    if (T < 1) { ps.push(randTok(r), ' '); continue; }
    const i = 1 + 2 * r.int(T), j = 1 + 2 * r.int(T);
    switch (r.int(11)) {
      case 0: ps.splice(i, 2); break;
      case 1: ps.splice(i, 0, ps[i], ' '); break;
      case 2: { const x = ps[i]; ps[i] = ps[j]; ps[j] = x; break; }
      case 3: ps[i] = randTok(r); break;
      case 4: ps.splice(i, 0, randTok(r), ' '); break;
      case 5: ps = ps.slice(0, i + 1).concat(['']); break;
      case 6: { const o = pieces(base(r)); const c = 1 + 2 * r.int(Math.max(1, (o.length - 1) >> 1)); ps = ps.slice(0, i).concat(o.slice(c)); break; }
      case 7: { const o = pieces(base(r)); const Q = Math.max(1, (o.length - 1) >> 1); const a = 1 + 2 * r.int(Q); ps.splice(i, 0, ...o.slice(a, a + 2 * r.range(1, 6))); break; }
      case 8: { const a = Math.min(i, j); ps.splice(a, Math.abs(i - j)); break; }
      case 9: ps[i - 1] = r.pick(['', ' ', '\n', ...WS_WILD]); break;
      default: ps[i - 1] = r.bool() ? ' ' + r.pick(LINE_C) + '\n' : ' ' + r.pick(BLOCK_C) + ' ';
    }
  }
  return ps.join('');
}
function mutChars(r, text, n) {
  const cs = [...text];
  for (let k = 0; k < n; k++) {
    const i = r.int(cs.length + 1);
    switch (r.int(4)) {
      case 0: cs.splice(i, 1); break;
      case 1: cs.splice(i, 0, r.pick(CHARS)); break;
      case 2: if (i < cs.length) cs[i] = r.pick(CHARS); break;
      default: if (r.bool(0.2)) cs.length = i; else cs.splice(i, 0, ...cs.slice(i, i + r.range(1, 5)));
    }
  }
  return cs.join('');
}
function tokenSoup(r) { let s = r.bool(0.6) ? r.pick(['SELECT ', 'SELECT * FROM ', 'CREATE TABLE t (', 'FROM t |> ', 'SELECT a FROM t WHERE ', 'BEGIN ', 'ALTER TABLE t ', 'MERGE t USING s ON ', 'DECLARE x ']) : ''; for (let i = 0, n = r.range(1, 25); i < n; i++) s += randTok(r) + r.pick(['', ' ', ' ', ' ', '\n']); return s; }
function charSoup(r) { let s = ''; for (let i = 0, n = r.range(0, 40); i < n; i++) s += r.pick(CHARS); return s; }
// any text at all -> {text, src}
function anyText(r, mix) {
  const t = someText(r, mix);
  if (r.int(300) === 0) { // far from the start
    const x = r.pick(['\n', ' ', '\r\n', '\t', '-- c\n', '/**/']), n = r.pick([250, 254, 255, 256, 257, 300, 1000, 65534, 65535, 65536, 70000]);
    t.text = x.repeat(/c|\*/.test(x) ? Math.min(n, 1000) : n) + t.text;
  }
  return t;
}
function someText(r, mix) {
  const k = r.weighted(mix || [[3, 'gen'], [1, 'seed'], [6, 'mut'], [2, 'mutc'], [1.5, 'soup'], [1, 'chars']]);
  switch (k) {
    case 'gen': return { src: k, text: scriptText(r, { maxFuel: 60 }).text };
    case 'seed': return { src: k, text: r.pick(r.bool(0.9) ? seeds.ok : seeds.lex.concat(seeds.err)) };
    case 'mut': return { src: k, text: mutTokens(r, base(r), r.weighted([[6, 1], [3, 2], [1, 4]])) };
    case 'mutc': return { src: k, text: mutChars(r, base(r), r.weighted([[5, 1], [2, 2], [1, 5]])) };
    case 'soup': return { src: k, text: tokenSoup(r) };
    default: return { src: 'chars', text: charSoup(r) };
  }
}
module.exports = { seeds, script, scriptText, anyText, mutTokens, mutChars, base, pieces, randTok, OPS, LITS, WORDS, CHARS, tokenSoup, charSoup };
