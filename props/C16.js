'use strict';
const { anyText } = require('../lib/workload.js');
const { stable } = require('../lib/tree.js');
// What crosses the boundary is plain JSON-like data of one fixed shape.
const U32 = (x) => Number.isInteger(x) && x >= 0 && x <= 4294967295;
const plain = (o) => o !== null && typeof o === 'object' && !Array.isArray(o) && Object.getPrototypeOf(o) === Object.prototype && Object.getOwnPropertySymbols(o).length === 0;
const keys = (o) => Object.keys(o).sort().join();
function token(t) {
  if (!plain(t)) return 'token-not-plain';
  if (keys(t) !== 'column,line,literal') return 'token-keys:' + keys(t);
  if (!U32(t.line) || t.line < 1 || !U32(t.column) || t.column < 1) return 'token-position';
  if (typeof t.literal !== 'string' || t.literal === '' || !t.literal.isWellFormed()) return 'token-literal';
  return null;
}
function node(n, seen) {
  if (!plain(n)) return 'node-not-plain';
  if (seen.has(n)) return 'node-shared'; seen.add(n);
  if (keys(n) !== 'children,node_type,token') return 'node-keys:' + keys(n);
  if (typeof n.node_type !== 'string' || !/^[A-Za-z]+$/.test(n.node_type)) return 'node-type';
  if (n.token !== null) { const e = token(n.token); if (e) return e; if (seen.has(n.token)) return 'token-shared'; seen.add(n.token); }
  if (!plain(n.children)) return 'children-not-plain';
  for (const k of Object.keys(n.children)) {
    if (!/^[a-z_]+$/.test(k)) return 'child-name:' + k;
    const c = n.children[k];
    if (!plain(c)) return 'child-not-plain';
    const ks = keys(c);
    if (ks === 'Node') { const e = node(c.Node, seen); if (e) return e; } else if (ks === 'NodeVec') { if (!Array.isArray(c.NodeVec)) return 'list-not-array'; for (const x of c.NodeVec) { const e = node(x, seen); if (e) return e; } } else return 'child-wrapper:' + ks;
  }
  return null;
}
function shape(res, api, seen = new Set()) {
  const v = res.value;
  if (res.kind === 'err') {
    if (!plain(v)) return 'error-not-plain';
    if (keys(v) !== 'column,line,message') return 'error-keys:' + keys(v);
    if (!U32(v.line) || v.line < 1 || !U32(v.column) || v.column < 1) return 'error-position';
    if (typeof v.message !== 'string' || v.message === '') return 'error-message';
    return null;
  }
  if (!Array.isArray(v)) return 'result-not-array';
  if (api === 'tokenize') { // the list ends with one end marker: no text, position past every line
    for (let k = 0; k < v.length - 1; k++) { const e = token(v[k]); if (e) return e; }
    const z = v[v.length - 1]; if (!z || !plain(z) || keys(z) !== 'column,line,literal' || z.literal !== '' || !U32(z.line) || !U32(z.column)) return 'no-end-marker';
    return null;
  }
  for (const n of v) { const e = node(n, seen); if (e) return e; }
  if (!v.length) return 'no-end-node';
  for (let k = 0; k < v.length; k++) { const last = k === v.length - 1; if ((v[k].node_type === 'EOF') !== last) return last ? 'no-end-node' : 'end-node-in-the-middle'; if (!last && v[k].token === null) return 'statement-without-token'; }
  const e = v[v.length - 1];
  if (e.token !== null) return 'end-node-has-token';
  for (const k of Object.keys(e.children)) if (k !== 'leading_comments') return 'end-node-child:' + k;
  return null;
}
const SUR = ['\ud800', '\udfff', '\udc00\ud800', 'a\udbff', '\ud83e', '\udd80'];
module.exports = {
  rule: 'an answer (tree, token list or error) every value of which was checked for its shape; distinct = distinct (function, outcome, shape of the answer)',
  budget: { quick: 132000, thorough: 800000 },
  run(i, r, ctx) {
    let { text, src } = anyText(r);
    if (r.bool(0.08)) { // unpaired surrogates: the text is what a well-formed copy of it would be
      const at = r.int(text.length + 1); text = text.slice(0, at) + r.pick(SUR) + text.slice(at); src = 'surrogates';
    }
    for (const api of ['parse', 'tokenize']) {
      const res = ctx.t()[api](text);
      if (res.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); continue; }
      const seen = new Set();
      const e = shape(res, api, seen);
      ctx.count(api + '_' + res.kind); ctx.count('objects_checked', seen.size);
      ctx.observed(api + res.kind + (res.kind === 'err' ? res.value.message.replace(/\d+|`[^`]*`|"[^"]*"/g, '_') : api === 'parse' ? JSON.stringify(res.value.map(sk)) : res.value.length), text);
      if (e) { ctx.violation({ sig: api + ':' + e, input: text, detail: JSON.stringify(res.value).slice(0, 500) }); continue; }
      const j = stable(res.value);
      if (!same(JSON.parse(JSON.stringify(res.value)), res.value)) ctx.violation({ sig: api + ':does-not-survive-json', input: text });
      if (!text.isWellFormed()) {
        const w = ctx.t()[api](text.toWellFormed()); ctx.count('surrogate_pairs_compared');
        if (w.kind !== res.kind || stable(w.value) !== j) ctx.violation({ sig: api + ':unpaired-surrogate', input: text, detail: j.slice(0, 300) });
      }
      if (api === 'tokenize') { // both functions agree on what is lexically wrong
        const p = ctx.lastParse;
        if (res.kind === 'err') { ctx.count('lexical_errors_compared'); if (!p || p.kind !== 'err' || stable(p.value) !== j) ctx.violation({ sig: 'parse-and-tokenize-disagree', input: text, detail: { tokenize: j, parse: p && JSON.stringify(p.value).slice(0, 200) } }); }
      } else ctx.lastParse = res;
    }
    ctx.lastParse = null;
  },
};
function sk(n) { return [n.node_type, Object.keys(n.children).sort().map((k) => { const c = n.children[k]; return [k, c.Node ? sk(c.Node) : c.NodeVec.length]; })]; }
function same(a, b) { if (a === b) return true; if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return false; const x = Object.keys(a), y = Object.keys(b); return Array.isArray(a) === Array.isArray(b) && x.length === y.length && x.every((k) => same(a[k], b[k])); }
