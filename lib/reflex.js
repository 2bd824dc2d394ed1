'use strict';
// Reference tokenizer: BigQuery's lexical rules (plus bq2cst's template syntax) as a
// list of anchored patterns, longest documented token first. Used as the oracle for
// token boundaries; written from the documentation, not from the lexer under test.
// Returns {toks: [{lit, line, column, start, end}]} or {err: {line, column}}.
const RX = {
  ws: /\p{White_Space}+/uy,
  lineComment: /(?:--|#)[^\n]*/uy,
  blockComment: /\/\*[^]*?\*\//uy,
  str3: /(?:'''(?:[^\\]|\\[^])*?'''|"""(?:[^\\]|\\[^])*?""")/uy,
  str1: /(?:'(?:[^'\\]|\\[^])*'|"(?:[^"\\]|\\[^])*")/uy,
  bq: /`[^`]*`/uy,
  hex: /0[xX][0-9a-fA-F]+/uy,
  num: /(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]*)?/uy,
  word: /[\p{Alphabetic}_][\p{Alphabetic}_0-9]*/uy,
  paramQ: /@+`[^`]*`/uy,
  param: /@+[\p{Alphabetic}_][\p{Alphabetic}_0-9]*/uy,
  op2: /(?:\|\||\|>|<<|<=|<>|=>|!=)/uy,
  op2gt: /(?:>>|>=)/uy,
};
const OPENS = new Set(['ARRAY', 'STRUCT', 'RANGE']);
function reflex(src) {
  const toks = [];
  let p = 0, line = 1, col = 1, depth = 0;
  const hit = (rx) => { rx.lastIndex = p; const m = rx.exec(src); return m ? m[0] : null; };
  const adv = (s) => { for (const ch of s) { if (ch === '\n') { line++; col = 1; } else col++; } p += s.length; };
  const unterminated = () => { adv(src.slice(p)); return { toks, err: { line, column: col, eof: true } }; };
  let last = null, last2 = null; // previous non-comment tokens
  const push = (s, o) => { const t = { lit: o && o.lit !== undefined ? o.lit : s, line, column: col, start: p, end: p + s.length }; if (o && o.comment) t.comment = true; else { last2 = last; last = t; } toks.push(t); adv(s); };
  while (p < src.length) {
    let s = hit(RX.ws);
    if (s) { adv(s); continue; }
    const c = src[p], c2 = src[p + 1];
    if (c === '#' || (c === '-' && c2 === '-')) { s = hit(RX.lineComment); push(s, { comment: true, lit: s.replace(/\p{White_Space}+$/u, '') }); continue; }
    if (c === '/' && c2 === '*') { s = hit(RX.blockComment); if (s === null) return unterminated(); push(s, { comment: true }); continue; }
    if (c === "'" || c === '"') {
      s = c2 === c && src[p + 2] === c ? hit(RX.str3) : hit(RX.str1);
      if (s === null) return unterminated();
      push(s); continue;
    }
    if (c === '`') { s = hit(RX.bq); if (s === null) return unterminated(); push(s); continue; }
    if (c === '@') {
      if ((s = hit(RX.paramQ)) !== null || (s = hit(RX.param)) !== null) { push(s); continue; }
      let q = p; while (src[q] === '@') q++;
      if (src[q] === '`') return unterminated();
      adv(src.slice(p, q));
      return { toks, err: { line, column: col } }; // a parameter needs a name
    }
    if (c === '{') {
      let n = 0; while (src[p + n] === '{') n++;
      const d = src[p + n];
      if (n === 1 && (d === '@' || d === ',' || (d !== undefined && /[0-9]/.test(d)))) { push('{'); continue; } // {m,n}
      const e = src.indexOf('}'.repeat(n), p + n);
      if (e < 0) return unterminated();
      push(src.slice(p, e + n)); continue;
    }
    if (/[0-9]/.test(c) || (c === '.' && c2 !== undefined && /[0-9]/.test(c2))) { s = hit(RX.hex) || hit(RX.num); push(s); continue; }
    if ((s = hit(RX.word)) !== null || (s = hit(RX.op2)) !== null) { push(s); continue; }
    if (c === '<') { if (last && OPENS.has(last.lit.toUpperCase()) && !(last2 && last2.lit === '.')) depth++; push(c); continue; }
    if (c === '>') { if (depth > 0) { depth--; push(c); } else push(hit(RX.op2gt) || c); continue; }
    push(String.fromCodePoint(src.codePointAt(p)));
  }
  return { toks, end: { line, column: col } };
}
module.exports = { reflex };
