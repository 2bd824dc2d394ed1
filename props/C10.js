'use strict';
const { walk } = require('../lib/tree.js');
const { flatten } = require('../lib/monitor.js');
// Operators group by the precedence and associativity of the SQL reference, in every
// place an expression can stand. Oracle: a descent over the precedence table below,
// working on the token sequence, independent of the library and of lib/gen.
const BIN = { '*': 1, '/': 1, '||': 1, '+': 2, '-': 2, '<<': 3, '>>': 3, '&': 4, '^': 5, '|': 6, AND: 9, OR: 10 };
const CMP = ['=', '<', '>', '<=', '>=', '!=', '<>'];
const OPS = [...Object.keys(BIN), ...CMP, 'LIKE', 'NOT LIKE', 'BETWEEN', 'NOT BETWEEN', 'IS DISTINCT FROM', 'IS NOT DISTINCT FROM', 'IN', 'NOT IN', 'IS', 'IS NOT'];
const ATOMS = [['a'], ['b'], ['c1'], ['`q`'], ['1'], ['2.5'], ["'s'"], ['NULL'], ['TRUE'], ['@p'], ['f', '(', 'x', ')'], ['f', '(', 'x', ',', 'y', '+', '1', ')'], ['CASE', 'WHEN', 'x', 'THEN', 'y', 'END'],
  ['CAST', '(', 'x', 'AS', 'INT64', ')'], ['[', '1', ',', '2', ']'], ['(', 'SELECT', '1', ')'], ['(', 'x', ',', 'y', ')'], ['COUNT', '(', '*', ')', 'OVER', '(', ')'], ['STRUCT', '(', '1', 'AS', 'z', ')'],
  ['IF', '(', 'x', '=', 'y', ',', '1', ',', '2', ')'], ['DATE', "'2020-01-01'"], ['INTERVAL', '1', 'DAY'], ['date'], ['value'], ['offset'], ['EXISTS', '(', 'SELECT', '1', ')'], ['ARRAY', '<', 'INT64', '>', '[', '1', ']'],
  ['ds', '.', 'g', '(', 'x', ')'], ['SAFE', '.', 'LEFT', '(', 'x', ',', '1', ')'], ['EXTRACT', '(', 'DAY', 'FROM', 'x', ')']];
const NODOT = new Set(['1', '2.5', 'NULL', 'TRUE', 'DATE', 'INTERVAL']); // an atom starting so takes no suffix here
// where an expression can stand: [before, after]
const PLACES = [
  ['SELECT', ''], ['SELECT z ,', 'FROM t'], ['SELECT z FROM t WHERE', ''], ['SELECT z FROM t WHERE', 'GROUP BY z'], ['SELECT z FROM t GROUP BY z HAVING', 'ORDER BY 1'], ['SELECT z FROM t QUALIFY', ''],
  ['SELECT z FROM t JOIN u ON', ''], ['SELECT z FROM t JOIN u ON', 'WHERE TRUE'], ['SELECT z FROM t ORDER BY', ''], ['SELECT z FROM t ORDER BY', 'DESC'], ['SELECT z FROM t GROUP BY', ''], ['SELECT (', ')'], ['SELECT ( (', ') )'],
  ['SELECT h (', ')'], ['SELECT h ( z ,', ')'], ['SELECT h ( n =>', ')'], ['SELECT [', ']'], ['SELECT [ z ,', ', z ]'], ['SELECT STRUCT (', 'AS k )'], ['SELECT (', ', z )'], ['SELECT z [', ']'], ['SELECT z [ OFFSET (', ') ]'],
  ['SELECT CASE WHEN', 'THEN 1 END'], ['SELECT CASE WHEN z THEN', 'END'], ['SELECT CASE WHEN z THEN', 'ELSE 0 END'], ['SELECT CASE WHEN z THEN 1 ELSE', 'END'], ['SELECT CASE', 'WHEN 1 THEN 2 END'],
  ['SELECT CAST (', 'AS STRING )'], ['SELECT z IN (', ')'], ['SELECT z IN ( z ,', ')'], ['SELECT h ( z ORDER BY', ')'], ['SELECT h ( z ) OVER ( PARTITION BY', ')'], ['SELECT h ( z ) OVER ( ORDER BY', 'DESC )'], ['SELECT EXTRACT ( DAY FROM', ')'],
  ['SELECT ( SELECT', ')'], ['SELECT ARRAY ( SELECT', ')'], ['SELECT', 'AS k'], ['SELECT', 'AS k , z'], ['SELECT DISTINCT', ''], ['SELECT AS STRUCT', ''], ['SELECT', 'UNION ALL SELECT 1'], ['WITH w AS ( SELECT', ') SELECT 1'],
  ['DELETE FROM t WHERE', ''], ['UPDATE t SET z = 1 WHERE', ''], ['MERGE t USING u ON', 'WHEN MATCHED THEN DELETE'], ['MERGE t USING u ON TRUE WHEN MATCHED AND', 'THEN DELETE'], ['INSERT t ( z ) VALUES (', ')'], ['INSERT t ( z ) VALUES ( 1 ,', ')'],
  ['DECLARE z INT64 DEFAULT', ''], ['IF', 'THEN SELECT 1 ; END IF'], ['WHILE', 'DO SELECT 1 ; END WHILE'], ['REPEAT SELECT 1 ; UNTIL', 'END REPEAT'], ['CASE WHEN', 'THEN SELECT 1 ; END CASE'], ['ASSERT', ''], ['ASSERT', "AS 'msg'"], ['CALL h (', ')'],
  ['EXECUTE IMMEDIATE', ''], ['EXECUTE IMMEDIATE', 'USING z'], ['SELECT UNNEST (', ')'], ['SELECT z FROM UNNEST (', ')'], ['FROM t |> WHERE', ''], ['FROM t |> WHERE', '|> LIMIT 1'], ['FROM t |> SELECT', 'AS k'], ['FROM t |> EXTEND', 'AS k |> LIMIT 1'], ['FROM t |> ORDER BY', 'DESC'],
  ['FROM t |> AGGREGATE', 'AS k GROUP BY z'], ['FROM t |> JOIN u ON', '|> LIMIT 1'], ['CREATE FUNCTION g ( ) AS (', ')'], ['SELECT z FROM t WINDOW w AS ( PARTITION BY', ')'], ['SELECT - (', ')'], ['SELECT NOT (', ')'],
];
// ---- reference: token items -> structure as a string
function reference(items) {
  let i = 0;
  const peek = () => items[i];
  const bin = (lv) => {
    let l = lv === 1 ? un() : bin(lv - 1);
    while (peek() && peek().op && BIN[peek().op] === lv) { const o = items[i++].op; const r = lv === 1 ? un() : bin(lv - 1); l = `[${o} ${l} ${r}]`; }
    return l;
  };
  const un = () => { const p = peek(); if (p && p.pre && p.pre !== 'NOT') { i++; return `[u${p.pre} ${un()}]`; } return post(); };
  const post = () => {
    const p = peek(); if (!p || !p.atom) throw new Error('operand expected'); i++;
    let s = p.atom.join(' ');
    if (p.atom.length >= 2 && p.atom[0] === '(' && p.group) s = '[group ' + reference(p.group) + ']';
    else if (p.atom.length === 2 && p.atom[0] === 'DATE') s = 'DATE ' + p.atom[1];
    for (const x of p.suffix || []) s = x[0] === '.' ? `[. ${s} ${x[1]}]` : `[sub ${s} ${x[1]}]`;
    return s;
  };
  const cmp = () => {
    let l = bin(6);
    for (let p; (p = peek()) && p.op && BIN[p.op] === undefined;) { // (left to right, like any operators of equal precedence)
      i++;
      if (/BETWEEN/.test(p.op)) { const a = bin(6); const q = items[i++]; if (!q || q.op !== 'AND') throw new Error('AND expected'); const b = bin(6); l = `[${p.op} ${l} ${a} ${b}]`; }
      else if (/^(NOT )?IN$/.test(p.op) || /^IS( NOT)?$/.test(p.op)) { l = `[${p.op} ${l} ${p.right.join(' ')}]`; }
      else l = `[${p.op} ${l} ${bin(6)}]`;
    }
    return l;
  };
  const not = () => { const p = peek(); if (p && p.pre === 'NOT') { i++; return `[uNOT ${not()}]`; } return cmp(); };
  const and = () => { let l = not(); while (peek() && peek().op === 'AND') { i++; l = `[AND ${l} ${not()}]`; } return l; };
  let l = and(); while (peek() && peek().op === 'OR') { i++; l = `[OR ${l} ${and()}]`; }
  if (i !== items.length) throw new Error('trailing');
  return l;
}
// ---- what the library said, in the same notation
const up = (n) => n.token.literal.toUpperCase();
const KEYS = { BinaryOperator: ['left', 'right'], UnaryOperator: ['right'], BetweenOperator: ['and', 'left', 'right_max', 'right_min'], InOperator: ['left', 'right'], IsDistinctFromOperator: ['distinct', 'from', 'left', 'right'], DotOperator: ['left', 'right'], AccessOperator: ['left', 'right', 'rparen'], GroupedExpr: ['expr', 'rparen'] };
function told(n, top) {
  const c = n.children, ks = Object.keys(c).filter((k) => !/_comments$/.test(k) && !(top && ['as', 'alias', 'comma', 'order'].includes(k)) && k !== 'not').sort();
  const e = KEYS[n.node_type];
  if (!e || /^(DATE|TIMESTAMP)$/.test(n.token && up(n)) || n.node_type === 'DotOperator' && c.right && c.right.Node && c.right.Node.node_type === 'CallingFunction') {
    const skip = top ? new Set(['as', 'alias', 'comma', 'order'].map((k) => c[k] && c[k].Node).filter(Boolean)) : new Set();
    const out = []; const rec = (m) => { if (skip.has(m)) return; if (m.token) out.push(m.token); for (const k of Object.keys(m.children)) { const x = m.children[k]; for (const y of x.Node !== undefined ? [x.Node] : x.NodeVec) rec(y); } };
    rec(n); out.sort((a, b) => a.line - b.line || a.column - b.column);
    return out.map((t) => t.literal).join(' ');
  }
  if (ks.join() !== e.join()) return `<${n.node_type} with ${ks.join()}>`;
  const s = (k) => (c[k].Node ? told(c[k].Node) : '<list>');
  const not = c.not ? (c.not.Node && c.not.Node.token ? 'NOT ' : '<not?>') : '';
  switch (n.node_type) {
    case 'BinaryOperator': { const o = up(n); if (o === 'IS') return `[IS${not ? ' NOT' : ''} ${s('left')} ${s('right')}]`; return `[${not}${o} ${s('left')} ${s('right')}]`; }
    case 'UnaryOperator': return `[u${up(n)} ${s('right')}]`;
    case 'BetweenOperator': return `[${not}BETWEEN ${s('left')} ${s('right_min')} ${s('right_max')}]`;
    case 'InOperator': return `[${not}IN ${s('left')} ${s('right')}]`;
    case 'IsDistinctFromOperator': return `[IS ${not}DISTINCT FROM ${s('left')} ${s('right')}]`;
    case 'DotOperator': return `[. ${s('left')} ${s('right')}]`;
    case 'AccessOperator': return `[sub ${s('left')} ${s('right')}]`;
    default: return `[group ${s('expr')}]`;
  }
}
function tokens(items) { const o = []; for (const x of items) { if (x.atom) { if (x.group) o.push('(', ...tokens(x.group), ')'); else o.push(...x.atom); for (const s of x.suffix || []) { if (s[0] === '.') o.push('.', s[1]); else o.push('[', s[1], ']'); } } else if (x.op) { o.push(...x.op.split(' ')); if (x.right) o.push(...x.right); } else o.push(x.pre); } return o; }
// ---- building expressions
function atom(r, depth) {
  if (depth > 0 && r.bool(0.1)) { const g = expr(r, r.range(1, 2), depth - 1); if (g.length > 1 || true) { try { reference(g); const x = { atom: ['(', ')'], group: g }; if (r.bool(0.3)) x.suffix = [['.', 'fld']]; return x; } catch (e) { /* not a legal group */ } } }
  const a = r.bool(0.6) ? ATOMS[r.int(4)] : r.pick(ATOMS);
  const x = { atom: a };
  if (!NODOT.has(a[0]) && a[a.length - 1] !== 'END' && r.bool(0.3) && !/^['@(\[]/.test(a[0]) && a[0] !== 'COUNT') { x.suffix = []; for (let k = 0, m = r.range(1, 2); k < m; k++) x.suffix.push(r.bool(0.6) ? ['.', r.pick(['fld', 'x', 'date', '`y`', 'select', 'value'])] : ['[', r.pick(['0', 'i', "'k'"])]); }
  return x;
}
function opItem(r, op) {
  if (/^(NOT )?IN$/.test(op)) return { op, right: r.pick([['(', '1', ')'], ['(', '1', ',', 'x', ')'], ['UNNEST', '(', 'x', ')'], ['(', 'SELECT', '1', ')']]) };
  if (/^IS( NOT)?$/.test(op)) return { op, right: r.pick([['NULL'], ['TRUE'], ['FALSE']]) };
  return { op };
}
function prefixes(r, items, n, mayNot) { for (let k = 0; k < n; k++) items.push({ pre: mayNot && k === 0 && r.bool(0.5) ? 'NOT' : r.pick(['-', '+', '~']) }); }
function build(r, ops, depth, pfx) {
  const items = []; let mayNot = true, after = false;
  const operand = () => { prefixes(r, items, r.bool(pfx) ? r.range(1, 2) : 0, mayNot); items.push(atom(r, depth)); };
  operand();
  for (const o of ops) {
    const it = opItem(r, o); items.push(it); mayNot = o === 'AND' || o === 'OR';
    if (it.right) continue; // its right side is fixed
    operand();
    if (/BETWEEN/.test(o)) { items.push({ op: 'AND' }); mayNot = false; operand(); }
  }
  return items;
}
function expr(r, n, depth) { const ops = []; for (let k = 0; k < n; k++) ops.push(r.pick(OPS)); return build(r, ops, depth, 0.25); }
function check(items, place, ctx, obs) {
  let want; try { want = reference(items); } catch (e) { if (obs) ctx.count('illegal_sequences_skipped'); return null; }
  const [pre, post] = place;
  const pt = pre.split(' ').filter(Boolean), et = tokens(items), qt = post.split(' ').filter(Boolean);
  const text = [...pt, ...et, ...qt].join(' ');
  const res = ctx.t().parse(text);
  if (res.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); return null; }
  if (obs) { ctx.observed(pre + '~' + post + '|' + want.replace(/[a-z0-9'`"@]+/g, 'o'), text); ctx.tally('places', pre + ' _ ' + post); for (const x of items) { if (x.op) ctx.tally('operators', x.op); if (x.pre) ctx.tally('prefix_operators', x.pre); } ctx.count('operators_placed', items.filter((x) => x.op || x.pre).length); }
  if (res.kind === 'err') return { sig: 'rejected in ' + pre + ' _ ' + post, text, detail: { message: res.value.message, line: res.value.line, column: res.value.column } };
  // the node that spans exactly the expression
  const order = flatten(res.value).map((x) => x.tok); order.sort((a, b) => a.line - b.line || a.column - b.column);
  const idx = new Map(order.map((t, k) => [t.line + ':' + t.column, k]));
  const lo = pt.length, hi = pt.length + et.length - 1; let found = null;
  const extent = (n) => { let a = Infinity, b = -1; const rec = (m, top) => { if (m.token) { const k = idx.get(m.token.line + ':' + m.token.column); if (k < a) a = k; if (k > b) b = k; } for (const k of Object.keys(m.children)) { if (top && ['as', 'alias', 'comma', 'order'].includes(k)) continue; const x = m.children[k]; for (const y of x.Node !== undefined ? [x.Node] : x.NodeVec) rec(y, false); } }; rec(n, true); return [a, b]; };
  const find = (n) => { const [a, b] = extent(n); if (a === lo && b === hi) { found = n; return true; } if (b < lo || a > hi) { /* may still be elsewhere */ } for (const k of Object.keys(n.children)) { const x = n.children[k]; for (const y of x.Node !== undefined ? [x.Node] : x.NodeVec) if (find(y)) return true; } return false; };
  for (const n of res.value) if (find(n)) break;
  const wk = want.match(/^\[(\S+)/) ? want.match(/^\[(\S+)/)[1] : 'operand';
  if (!found) return { sig: 'not one expression: ' + wk, text, detail: { want } };
  const got = told(found, true);
  if (got !== want) return { sig: 'grouped differently: ' + (got.match(/^\[(\S+)/) || [0, 'operand'])[1] + ' at the top instead of ' + wk, text, detail: { want, got } };
  return null;
}
const A = ['a', 'b', 'c', 'd', 'e', 'g', 'h', 'i'];
function plain(ops) { // a op b op c with no decoration
  const items = [{ atom: ['a'] }]; let k = 1;
  for (const o of ops) { if (/^(NOT )?IN$/.test(o)) items.push({ op: o, right: ['(', '1', ')'] }); else if (/^IS( NOT)?$/.test(o)) items.push({ op: o, right: ['NULL'] }); else { items.push({ op: o }, { atom: [A[k++]] }); if (/BETWEEN/.test(o)) items.push({ op: 'AND' }, { atom: [A[k++]] }); } }
  return items;
}
const N = OPS.length;
module.exports = {
  rule: 'an expression that is legal under the reference precedence table, parsed in one of the ' + PLACES.length + ' places, whose grouping was compared with the grouping the table gives; distinct = distinct (place, grouping)',
  budget: { quick: 260000, thorough: 900000 },
  fixedCases: (tier) => (tier === 'thorough' ? N ** 3 : N ** 2) ,
  run(i, r, ctx) {
    const fixed = ctx.tier === 'thorough' ? N ** 3 : N ** 2;
    const done = (v) => { if (v) ctx.violation({ sig: v.sig, input: v.text, detail: v.detail }); };
    if (i < fixed) { // every pair (quick) or triple (thorough) of operators, bare and with each prefix on each operand
      const ops = []; for (let k = i, m = ctx.tier === 'thorough' ? 3 : 2; m > 0; m--) { ops.push(OPS[k % N]); k = Math.floor(k / N); }
      const items = plain(ops);
      for (const p of ctx.tier === 'thorough' ? PLACES.slice(0, 6) : PLACES) done(check(items, p, ctx, true));
      for (let k = 0; k < items.length; k++) if (items[k].atom) for (const pre of ['-', '~', 'NOT']) { const it = items.slice(); it.splice(k, 0, { pre }); done(check(it, r.pick(PLACES), ctx, true)); const jt = items.slice(); jt[k] = { atom: items[k].atom, suffix: [['.', 'f'], ['[', '0']] }; jt.splice(k, 0, { pre }); done(check(jt, r.pick(PLACES), ctx, true)); }
      return;
    }
    let items = null;
    for (let k = 0; k < 20 && !items; k++) { const e = expr(r, r.weighted([[3, 2], [4, 3], [3, 5], [1, 9], [0.03, 30], [0.008, 110]]), 2); try { reference(e); items = e; } catch (x) { ctx.count('illegal_sequences_skipped'); } }
    if (!items) return;
    done(check(items, r.pick(PLACES), ctx, true));
  },
  assumptions: ['NOT as the right operand of a comparison is not legal SQL and is not judged', 'the `=` of an assignment (SET, OPTIONS) is represented as an ordinary comparison by the library, so its right-hand side is not a place of its own', 'atoms that carry their own keywords (CASE, CAST, calls) count as one operand'],
};
