'use strict';
const { childEntries, isComment } = require('./tree.js');
const { seeds, scriptText } = require('./workload.js');
// A family pumped out of a script: a phrase N that contains a phrase M is nested into itself k times in the place of M,
// or an element of a list is repeated k times. -> {name, parts(k) -> [before the core, core and after], nested}
const EXPR = new Set(('AccessOperator ArrayLiteral BinaryOperator BetweenOperator BooleanLiteral CallingFunction CaseExpr DotOperator EmptyStruct FunctionChain GroupedExpr GroupedStatement Identifier ' +
  'IntervalLiteral InOperator IsDistinctFromOperator NumericLiteral NullLiteral Parameter RangeLiteral StringLiteral StructLiteral UnaryOperator').split(' '));
const kind = (t) => (EXPR.has(t) ? 'expr' : /Statement$/.test(t) ? 'stmt' : t === 'Type' ? t : t === 'SetOperator' ? 'stmt' : null);
// strict: only a phrase in the place of a phrase of its own kind, only elements that carry their own separator
function pumped(r, t, strict) {
  const text = r.bool(0.4) ? r.pick(seeds.ok) : scriptText(r, { maxFuel: 40, stmts: 1, style: 'canonical' }).text;
  const res = t.parse(text);
  if (res.kind !== 'ok') return null;
  const toks = [];
  const all = (n) => { if (isComment(n)) return; if (n.token) toks.push(n.token); for (const [, ns] of childEntries(n)) ns.forEach(all); };
  res.value.forEach(all);
  toks.sort((a, b) => a.line - b.line || a.column - b.column);
  const at = new Map(toks.map((x, i) => [x, i])), lits = toks.map((x) => x.literal), found = new Map();
  const put = (key, v) => { if (!found.has(key)) found.set(key, []); found.get(key).push(v); };
  const visit = (n) => {
    let lo = n.token ? at.get(n.token) : Infinity, hi = n.token ? lo : -1; const inner = [];
    for (const [k, ns] of childEntries(n)) {
      for (const c of ns) {
        if (isComment(c)) continue;
        const s = visit(c);
        if (s.hi < 0) continue;
        lo = Math.min(lo, s.lo); hi = Math.max(hi, s.hi);
        inner.push({ t: c.node_type, key: '.' + k + ' ' + c.node_type, lo: s.lo, hi: s.hi, d: 1 });
        for (const x of s.inner) if (x.d < 5) inner.push({ t: x.t, key: '.' + k + x.key, lo: x.lo, hi: x.hi, d: x.d + 1 });
        if (ns.length > 1 && s.hi - s.lo < 25 && (!strict || c.children.comma || c.children.semicolon)) put('list ' + n.node_type + '.' + k + ' ' + c.node_type, { lo: s.lo, hi: s.hi });
      }
    }
    for (const x of inner) if ((x.lo > lo || x.hi < hi) && x.lo - lo + hi - x.hi < 25 && (!strict || kind(x.t) && kind(x.t) === kind(n.node_type))) put('nest ' + n.node_type + x.key, { lo, hi, a: x.lo, b: x.hi });
    return { lo, hi, inner };
  };
  res.value.forEach(visit);
  const keys = [...found.keys()].sort();
  if (!keys.length) return null;
  const name = r.pick(keys), f = r.pick(found.get(name));
  const txt = (i, j) => (i < j ? lits.slice(i, j).join(' ') + ' ' : '');
  const parts = f.a === undefined
    ? (k) => [txt(0, f.lo) + txt(f.lo, f.hi + 1).repeat(k), txt(f.lo, lits.length)]
    : (k) => [txt(0, f.lo) + txt(f.lo, f.a).repeat(k) + txt(f.a, f.b + 1), txt(f.b + 1, f.hi + 1).repeat(k) + txt(f.hi + 1, lits.length)];
  return { name, parts, nested: f.a !== undefined };
}
module.exports = { pumped };
