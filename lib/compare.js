'use strict';
// Compares the tree the API returned with the tree the generator says it must be.
// Returns null or the first difference {cat, path, exp, got}; cat is one of
//   type  keys  token  count  shape  comments
function cmpComments(got, exp, path, which) {
  const g = got ? got.NodeVec : [];
  if (got && !Array.isArray(got.NodeVec)) return { cat: 'comments', path: path + '.' + which, exp: 'NodeVec', got: 'other' };
  const e = exp || [];
  const f = (l, o) => l + '@' + o.line + ':' + o.column;
  const gs = g.map((n) => f(n.token.literal, n.token)), es = e.map((c) => f(c.lit, c));
  if (gs.length !== es.length || gs.some((s, i) => s !== es[i])) return { cat: 'comments', path: path + '.' + which, exp: es, got: gs };
  return null;
}
function cmpNode(got, exp, lay, att, path, o) {
  if (!got) return { cat: 'shape', path, exp: exp.t, got: 'nothing' };
  if (got.node_type !== exp.t) return { cat: 'type', path, exp: exp.t + (exp.k === null ? '' : ' ' + lay.lits[exp.k]), got: got.node_type + (got.token ? ' ' + got.token.literal : '') };
  if (exp.k === null) { if (got.token !== null) return { cat: 'token', path, exp: null, got: got.token }; }
  else {
    const t = got.token, p = lay.pos[exp.k];
    if (!t || t.literal !== lay.lits[exp.k] || (!o.noPos && (t.line !== p.line || t.column !== p.column))) return { cat: 'token', path, exp: { literal: lay.lits[exp.k], line: p.line, column: p.column }, got: t };
  }
  const ek = Object.keys(exp.c), gk = Object.keys(got.children).filter((k) => k !== 'leading_comments' && k !== 'trailing_comments');
  if (ek.length !== gk.length || ek.some((k) => !(k in got.children))) return { cat: 'keys', path: path + '(' + exp.t + ')', exp: ek.sort(), got: gk.sort() };
  if (!o.noComments) {
    const d = cmpComments(got.children.leading_comments, exp.k === null ? null : att.lead.get(exp.k), path, 'leading_comments') ||
      cmpComments(got.children.trailing_comments, exp.k === null ? null : att.trail.get(exp.k), path, 'trailing_comments');
    if (d) return d;
  }
  for (const k of ek) {
    const e = exp.c[k], g = got.children[k], p = path + '.' + k;
    if (Array.isArray(e)) {
      if (!g || !Array.isArray(g.NodeVec)) return { cat: 'shape', path: p, exp: 'NodeVec', got: g && Object.keys(g) };
      if (g.NodeVec.length !== e.length) return { cat: 'count', path: p, exp: e.length, got: g.NodeVec.length };
      for (let i = 0; i < e.length; i++) { const d = cmpNode(g.NodeVec[i], e[i], lay, att, p + '[' + i + ']', o); if (d) return d; }
    } else {
      if (!g || g.Node === undefined) return { cat: 'shape', path: p, exp: 'Node', got: g && Object.keys(g) };
      const d = cmpNode(g.Node, e, lay, att, p, o); if (d) return d;
    }
  }
  return null;
}
function compare(roots, expected, lay, att, o = {}) {
  if (!Array.isArray(roots)) return { cat: 'shape', path: '', exp: 'array', got: typeof roots };
  if (roots.length !== expected.length + 1) return { cat: 'count', path: 'statements', exp: expected.length + 1, got: roots.length };
  for (let i = 0; i < expected.length; i++) { const d = cmpNode(roots[i], expected[i], lay, att, 'stmt[' + i + ']', o); if (d) return d; }
  const eof = roots[roots.length - 1];
  if (eof.node_type !== 'EOF' || eof.token !== null) return { cat: 'type', path: 'eof', exp: 'EOF', got: eof.node_type };
  if (!o.noComments) { const d = cmpComments(eof.children.leading_comments, att.eof, 'eof', 'leading_comments'); if (d) return d; }
  return null;
}
module.exports = { compare };
