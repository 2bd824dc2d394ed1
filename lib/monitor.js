'use strict';
// Observers over one (source text, result) pair.
const WS = /^\p{White_Space}*$/u;
function isCommentText(s) { return s.startsWith('--') || s.startsWith('#') || s.startsWith('/*'); }
// code points of the source with a line table
class Source {
  constructor(text) {
    this.cp = [...text]; // lone surrogates become U+FFFD when passed to wasm
    for (let i = 0; i < this.cp.length; i++) { const c = this.cp[i].codePointAt(0); if (c >= 0xd800 && c <= 0xdfff) this.cp[i] = '\ufffd'; }
    this.lines = [0];
    for (let i = 0; i < this.cp.length; i++) if (this.cp[i] === '\n') this.lines.push(i + 1);
  }
  offset(line, column) {
    if (!(line >= 1 && line <= this.lines.length && column >= 1)) return -1;
    const o = this.lines[line - 1] + column - 1;
    const end = line < this.lines.length ? this.lines[line] : this.cp.length + 1;
    return o < end ? o : -1;
  }
  slice(a, b) { return this.cp.slice(a, b).join(''); }
}
// every node that carries a token, in source order of the token
function flatten(roots) {
  const out = [];
  const rec = (n, parent, key) => {
    if (n.token !== null) out.push({ n, tok: n.token, parent, key });
    for (const k of Object.keys(n.children)) {
      const c = n.children[k];
      if (c.Node !== undefined) rec(c.Node, n, k); else for (const x of c.NodeVec) rec(x, n, k);
    }
  };
  for (const r of roots) rec(r, null, null);
  out.sort((a, b) => a.tok.line - b.tok.line || a.tok.column - b.tok.column);
  return out;
}
const short = (s) => (s.length > 24 ? s.slice(0, 24) + '…' : s);
// do these tokens ({line, column, literal}, in order) cover the source, with nothing but
// whitespace between them? -> null | {sig, detail}
function tiling(text, toks) {
  const src = new Source(text);
  let p = 0;
  for (let i = 0; i < toks.length; i++) {
    const t = toks[i];
    if (typeof t.literal !== 'string' || t.literal === '') return { sig: 'empty-token', detail: { token: t } };
    const o = src.offset(t.line, t.column);
    if (o < 0) return { sig: 'position-outside-source', detail: { token: t } };
    if (o < p) return { sig: 'token-twice-or-overlapping', detail: { token: t, before: toks[i - 1] } };
    const gap = src.slice(p, o);
    if (!WS.test(gap)) return { sig: 'lost', detail: { lost: short(gap.trim()), before: t } };
    const len = [...t.literal].length;
    if (src.slice(o, o + len) !== t.literal) return { sig: 'altered', detail: { token: t, source: short(src.slice(o, o + len)) } };
    p = o + len;
  }
  const rest = src.slice(p);
  if (!WS.test(rest)) return { sig: 'lost', detail: { lost: short(rest.trim()), before: 'end' } };
  return null;
}
function shapeKey(toks) { // class of a token sequence, for counting distinct situations
  let s = '';
  for (const t of toks) { const l = t.literal; s += isCommentText(l) ? 'c' : /^[A-Za-z_]/.test(l) ? l.toUpperCase() + ' ' : /^[0-9.]+/.test(l) && l !== '.' ? 'n' : /^['"]/.test(l) ? 's' : l[0] === '`' ? 'q' : l + ' '; }
  return s;
}
module.exports = { Source, flatten, tiling, shapeKey, isCommentText, WS };
