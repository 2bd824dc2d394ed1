'use strict';
// Lays a token sequence out as source text: whitespace, letter case of keywords and
// comments vary freely between tokens; the expected position of every token and the
// expected owner of every comment come with the text.
const PUNCT = new Set(['(', ')', ',', '[', ']', ';', '.']);
const TBL_OK = new Set([',', '.', '(', ')', ';', '|>']);
const WORD = new Set(['kw', 'id']);
function canAbut(a, b) {
  if (b.glue) return true;
  if (a.tbl && a.kind !== 'qid' && !TBL_OK.has(b.lit)) return false;
  const an = /^[0-9.]/.test(a.lit) && a.lit !== '.' && /[0-9.]$/.test(a.lit) || /^[0-9]/.test(a.lit);
  if (b.lit === '.' && an) return false;
  if (b.kind === 'num' && b.lit[0] === '.' && !['(', ',', '['].includes(a.lit)) return false;
  if (a.lit === '.' && b.kind === 'num') return false;
  if (PUNCT.has(a.lit) || PUNCT.has(b.lit)) return true;
  if (a.kind === 'ang' || b.kind === 'ang') {
    if (a.kind === 'op' || b.kind === 'op') return false;
    if (a.kind === 'ang' && b.kind === 'ang') return a.lit === '>' && b.lit === '>' ;
    if (a.lit === '>' && WORD.has(b.kind)) return true;
    return true;
  }
  if (a.kind === 'op' && b.kind === 'op') return false;
  if (a.kind === 'op' || b.kind === 'op') return a.kind !== 'param' && b.kind !== 'pipe' && a.kind !== 'pipe' && !(b.kind === 'tmpl' && a.lit === '{');
  if (a.kind === 'pipe' || b.kind === 'pipe') return true;
  if (a.kind === 'kw' && b.kind === 'str') return !/^(b|r|br|rb)$/i.test(a.lit);
  if (a.kind === 'str' && b.kind === 'kw') return true;
  if (a.kind === 'qid' && WORD.has(b.kind) || b.kind === 'qid' && WORD.has(a.kind) || a.kind === 'str' && (b.kind === 'qid' || b.kind === 'id') || a.kind === 'qid' && b.kind === 'str') return true;
  return false;
}
const WS_PLAIN = [' ', ' ', ' ', '\n', '  ', '\n  ', '\t', ' \n'];
const WS_WILD = [' ', '\n', '\r\n', '\t', '   ', '\n\n\n', ' \n ', '\u3000', '\u00a0', '\u2003', '\u000b', '\u000c', '\u0085', '\u2028', '\u1680', '\u205f', '\u2029', '\u202f', '\u200a', '\r', '\t\t\n'];
const LINE_C = ['-- c', '--', '#', '# hash', '--  日本 ', "-- it's", '-- /* x', '-- a; b  ', '#` "', '--\t', '-- select 1 |> x', '--- x', '#}}{{', '-- 🦀\u3000', '## x', '--a\rb'];
const BLOCK_C = ['/* c */', '/**/', '/***/', '/* a\n b */', '/*/*/', '/* -- x */', "/* ' */", '/*\n\n*/', '/* ; */', '/* 日本\n🦀 */', '/*`*/', '/* #x\n */', '/* * / */', '/*\r\n*/', '/*--*/'];
function recase(s, mode, r) {
  if (mode === 'upper') return s.toUpperCase();
  if (mode === 'lower') return s.toLowerCase();
  if (mode === 'title') return s[0].toUpperCase() + s.slice(1).toLowerCase();
  let o = '';
  for (const ch of s) o += r.bool() ? ch.toUpperCase() : ch.toLowerCase();
  return o;
}
// o: {ws: 'canon'|'tight'|'plain'|'wild', comments: probability per gap, kwcase: 'upper'|'lower'|'title'|'mixed'|'rand'|'asis', edge: trivia at both ends}
function layout(toks, r, o = {}) {
  const ws = o.ws || 'canon', pc = o.comments || 0, kc = o.kwcase || 'upper';
  let text = '', line = 1, col = 1;
  const pos = [], lits = [], comments = [];
  const put = (s) => { text += s; for (const ch of s) { if (ch === '\n') { line++; col = 1; } else col++; } };
  const space = () => ws === 'canon' || ws === 'tight' ? ' ' : r.pick(ws === 'wild' ? WS_WILD : WS_PLAIN);
  const lastCh = () => text[text.length - 1];
  // comments between token i (or -1) and token i+1 (or end)
  const gapComments = (i, atEnd) => {
    let run = i >= 0; const n = r.weighted([[5, 1], [2, 2], [1, 3]]);
    for (let k = 0; k < n; k++) {
      if (r.bool(0.7) || lastCh() === '-' || lastCh() === '/') put(r.bool(0.6) ? ' ' : space());
      if (r.bool(0.25)) put('\n');
      const isLine = r.bool(0.5);
      const raw = r.pick(isLine ? LINE_C : BLOCK_C);
      const c = { lit: isLine ? raw.replace(/\s+$/u, '') : raw, line, column: col, after: i, kind: '' };
      // U+0085 is whitespace for Rust's trim_end but not for JS \s
      if (run && i >= 0 && line === pos[i].line) c.kind = 'trailing'; else { run = false; c.kind = 'leading'; }
      comments.push(c);
      put(raw);
      if (isLine) { if (atEnd && k === n - 1 && r.bool(0.3)) break; put(r.bool(0.8) ? '\n' : '\r\n'); }
    }
  };
  // once in a while one gap is very wide: positions beyond 2^8 and 2^16, long runs of comments
  const wideAt = ws === 'plain' || ws === 'wild' ? (r.int(250) === 0 ? r.int(toks.length + 1) : -1) : -1;
  const wide = (i) => {
    const n = r.pick([250, 254, 255, 256, 300, 1000, 65530, 65535, 65536, 70000]);
    put(r.pick(['\n', ' ', '\r\n', '\t', '\u3000']).repeat(n));
    if (pc) for (let k = r.pick([1, 5, 260]); k > 0; k--) { comments.push({ lit: '-- w', line, column: col, after: i, kind: i >= 0 && line === pos[i].line ? 'trailing' : 'leading' }); put('-- w\n'); }
  };
  if (o.edge && ws !== 'canon' && r.bool(0.3)) put(space());
  if (wideAt === 0) wide(-1);
  if (pc && r.bool(pc)) gapComments(-1, toks.length === 0);
  for (let i = 0; i < toks.length; i++) {
    const t = toks[i];
    if (i > 0 && !t.glue) {
      const before = text.length;
      if (i === wideAt) wide(i - 1);
      else if (pc && r.bool(pc)) { gapComments(i - 1, false); if (r.bool(0.6)) put(space()); }
      if (text.length === before) {
        if (!((ws === 'tight' || (ws !== 'canon' && r.bool(0.35))) && canAbut(toks[i - 1], t))) put(space());
      }
    }
    const lit = t.kind === 'kw' && kc !== 'asis' ? recase(t.lit, kc === 'rand' ? r.pick(['upper', 'lower', 'mixed', 'title']) : kc, r) : t.lit;
    pos.push({ line, column: col }); lits.push(lit);
    put(lit);
  }
  if (pc && r.bool(pc)) gapComments(toks.length - 1, true);
  else if (o.edge && ws !== 'canon' && r.bool(0.4)) put(space());
  return { text, pos, lits, comments };
}
function attach(lay, ntoks) { // -> {lead: Map(tok -> [comment]), trail: Map, eof: [...]}
  const lead = new Map(), trail = new Map(), eof = [];
  for (const c of lay.comments) {
    if (c.kind === 'trailing') { if (!trail.has(c.after)) trail.set(c.after, []); trail.get(c.after).push(c); }
    else if (c.after + 1 < ntoks) { const k = c.after + 1; if (!lead.has(k)) lead.set(k, []); lead.get(k).push(c); }
    else eof.push(c);
  }
  return { lead, trail, eof };
}
const STYLES = [
  { ws: 'canon', kwcase: 'upper' }, { ws: 'tight', kwcase: 'upper', edge: true }, { ws: 'plain', kwcase: 'rand', edge: true }, { ws: 'wild', kwcase: 'rand', edge: true },
  { ws: 'plain', comments: 0.12, kwcase: 'rand', edge: true }, { ws: 'wild', comments: 0.35, kwcase: 'mixed', edge: true }, { ws: 'tight', comments: 0.25, kwcase: 'lower', edge: true },
];
module.exports = { layout, attach, canAbut, STYLES, recase, LINE_C, BLOCK_C, WS_WILD };
