'use strict';
// Helpers over the concrete syntax tree as returned to JavaScript.
function* childEntries(node) {
  for (const k of Object.keys(node.children)) {
    const c = node.children[k];
    if (c.Node !== undefined) yield [k, [c.Node], false];
    else yield [k, c.NodeVec, true];
  }
}
function walk(node, f, parent = null, key = null) {
  f(node, parent, key);
  for (const [k, ns] of childEntries(node)) for (const n of ns) walk(n, f, node, k);
}
const tkey = t => t.line + ':' + t.column;
const isComment = n => n.node_type === 'Comment';
const isCommentLit = s => s.startsWith('--') || s.startsWith('/*') || s.startsWith('#');
// canonical text of a subtree. opts: {pos, lit, comments, semicolon}
function canon(node, o = {}) {
  const keys = Object.keys(node.children).sort();
  let s = '(' + node.node_type;
  if (node.token === null) s += ' ~';
  else {
    let l = node.token.literal;
    if (o.lit) l = o.lit(l, node);
    s += ' ' + JSON.stringify(l);
    if (o.pos) s += '@' + node.token.line + ':' + node.token.column;
  }
  for (const k of keys) {
    if (!o.comments && (k === 'leading_comments' || k === 'trailing_comments')) continue;
    if (o.skip && o.skip.has(k)) continue;
    const c = node.children[k];
    s += ' ' + k;
    if (c.Node !== undefined) s += ':' + canon(c.Node, o);
    else s += ':[' + c.NodeVec.map(n => canon(n, o)).join(' ') + ']';
  }
  return s + ')';
}
// JSON with object keys sorted: the order of a node's children is not specified
function stable(v) { if (v === null || typeof v !== 'object') return JSON.stringify(v); if (Array.isArray(v)) return '[' + v.map(stable).join() + ']'; return '{' + Object.keys(v).sort().map((k) => JSON.stringify(k) + ':' + stable(v[k])).join() + '}'; }
module.exports = { stable, childEntries, walk, tkey, isComment, isCommentLit, canon };
