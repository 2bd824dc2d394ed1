'use strict';
const path = require('path');
const { anyText } = require('../lib/workload.js');
const { table } = require('../lib/dts.js');
// Trees conform to the type declarations that ship with the package.
// Valid scripts: strictly. Other accepted texts: node types are declared (or 'Unknown', the
// marker for a token the grammar has no use for) and a declared child is one node / a list as declared.
const tok = (n) => (n && n.token ? n.token.literal.toUpperCase() : '');
function conform(roots, T, strict, seen) {
  let bad = null;
  const rec = (n, parent) => {
    if (bad) return;
    const d = T.nodes[n.node_type];
    if (!d) { if (strict || n.node_type !== 'Unknown') { bad = { sig: 'undeclared node type ' + n.node_type, detail: { token: n.token } }; return; } }
    else {
      if (seen) seen.add(n.node_type);
      if (strict && n.token === null && !d.nullToken) { bad = { sig: n.node_type + ' has no token', detail: {} }; return; }
      if (strict && n.token !== null && !d.hasToken) { bad = { sig: n.node_type + ' has a token', detail: { token: n.token } }; return; }
      for (const k of Object.keys(n.children)) {
        const e = d.keys[k], c = n.children[k], kind = c.NodeVec !== undefined ? 'NodeVec' : 'Node';
        if (!e) { if (strict) { bad = { sig: n.node_type + ' has undeclared child ' + k, detail: { token: n.token } }; return; } continue; }
        if (seen) seen.add(n.node_type + '.' + k);
        const kinds = Object.keys(e.kinds);
        if (!kinds.includes(kind) && (strict || kinds.length)) { bad = { sig: `${n.node_type}.${k} is ${kind}, declared ${kinds.join('|') || 'absent'}`, detail: { token: n.token } }; return; }
        const al = e.kinds[kind];
        if (strict && al) for (const m of kind === 'Node' ? [c.Node] : c.NodeVec) {
          if (al.includes(m.node_type)) continue;
          // name AS expr, in WITH(a AS expr, ...) and DEFINE a AS expr: the "alias" is an expression there
          if (k === 'alias' && parent && (parent.node_type === 'CallingFunction' && tok(parent.children.func && parent.children.func.Node) === 'WITH' || tok(parent) === 'DEFINE')) continue;
          bad = { sig: `${n.node_type}.${k} holds ${m.node_type}`, detail: { declared: al.slice(0, 12), token: m.token } }; return;
        }
      }
      if (strict) for (const k of Object.keys(d.keys)) if (!d.keys[k].optional && !(k in n.children)) { bad = { sig: `${n.node_type} lacks ${k}`, detail: { token: n.token, has: Object.keys(n.children) } }; return; }
    }
    for (const k of Object.keys(n.children)) { const c = n.children[k]; for (const m of c.NodeVec !== undefined ? c.NodeVec : [c.Node]) rec(m, n); }
  };
  for (const n of roots) rec(n, null);
  return bad;
}
let T = null;
module.exports = {
  rule: 'an accepted text every node of whose tree was checked against the declarations of its node type (strictly for scripts of the grammar and of the corpus); distinct = distinct sets of (node type, child) pairs in one tree',
  budget: { quick: 180000, thorough: 800000 },
  init(ctx) { T = table(path.join(ctx.pkgs.release, 'bq2cst.d.ts')); },
  run(i, r, ctx) {
    if (T.broken) { ctx.violation({ sig: T.broken, input: '', detail: {} }); return; }
    if (i === 0) { ctx.count('node_types_declared', Object.keys(T.nodes).length); ctx.count('children_declared', Object.values(T.nodes).reduce((a, x) => a + Object.keys(x.keys).length, 0)); for (const f of ['parse', 'tokenize']) if (!T.functions.includes(f)) ctx.violation({ sig: 'function ' + f + ' is not declared', input: '', detail: {} }); }
    const w = anyText(r, [[7, 'gen'], [1.5, 'seed'], [2, 'mut'], [0.7, 'mutc'], [0.5, 'soup']]);
    const res = ctx.t().parse(w.text);
    if (res.kind !== 'ok') { ctx.count(res.kind === 'err' ? 'rejected_texts' : 'crashed_texts_left_to_C04'); return; }
    const strict = w.src === 'gen' || w.src === 'seed';
    const seen = new Set();
    const bad = conform(res.value, T, strict, seen);
    ctx.count(strict ? 'trees_checked_strictly' : 'trees_checked_for_kinds');
    for (const s of seen) ctx.tally('pairs', s);
    ctx.observed([...seen].sort().join(), w.text);
    if (bad) ctx.violation({ sig: bad.sig, input: w.text, detail: bad.detail });
  },
  assumptions: ['the TypeScript compiler of the sandbox reads the declarations', 'WITH(a AS expr, ...) and DEFINE a AS expr keep the expression under "alias", which is not held against the declarations'],
};
