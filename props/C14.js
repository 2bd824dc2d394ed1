'use strict';
const { Gen } = require('../lib/gen/core.js');
require('../lib/gen/expr.js'); require('../lib/gen/query.js'); require('../lib/gen/stmt.js');
const { seeds } = require('../lib/workload.js');
const { direct } = require('../lib/direct.js');
const { layout, STYLES } = require('../lib/render.js');
const { reflex, diff } = require('../lib/rel.js');
const { canon } = require('../lib/tree.js');
const { Source } = require('../lib/monitor.js');
// The same phrase gets the same subtree wherever it stands.
// In a context, § marks the phrase; its subtree is the outermost node that covers exactly the phrase.
const CTX = {
  expr: ['SELECT §', 'SELECT §, 1', 'SELECT 1, §', 'SELECT (§)', 'SELECT f(§)', 'SELECT f(1, §, 2)', 'SELECT [§]', 'SELECT [1, §]', 'SELECT STRUCT(§)', 'SELECT (1, §)', 'SELECT ARRAY[§]',
    'SELECT IF(§, 1, 2)', 'SELECT CASE WHEN § THEN 1 END', 'SELECT CASE WHEN a THEN § END', 'SELECT CASE WHEN a THEN 1 ELSE § END', 'SELECT CASE § WHEN 1 THEN 2 END', 'SELECT a[§]',
    'SELECT CAST(§ AS INT64)', 'SELECT SAFE_CAST(§ AS STRING)', 'SELECT EXTRACT(DAY FROM §)', 'SELECT a IN (§)', 'SELECT a IN (1, §)', 'SELECT a FROM t WHERE §', 'SELECT a FROM t WHERE § GROUP BY 1',
    'SELECT a FROM t GROUP BY §', 'SELECT a FROM t GROUP BY 1, §', 'SELECT a FROM t GROUP BY 1 HAVING §', 'SELECT a FROM t QUALIFY §', 'SELECT a FROM t ORDER BY §', 'SELECT a FROM t ORDER BY § DESC',
    'SELECT a FROM t JOIN u ON §', 'SELECT a FROM t JOIN u ON § WHERE b', 'SELECT SUM(a) OVER (PARTITION BY §)', 'SELECT SUM(a) OVER (ORDER BY §)', 'SELECT SUM(a) OVER (PARTITION BY b ORDER BY § ROWS UNBOUNDED PRECEDING)',
    'SELECT a FROM UNNEST(§)', 'SELECT ARRAY_AGG(a ORDER BY §)', 'SELECT ARRAY_AGG(DISTINCT §)', 'SELECT a.f(§)', 'SELECT f(x => §)', 'SELECT WITH(a AS 1, §)', 'SELECT EXISTS(SELECT §)', 'SELECT ARRAY(SELECT a FROM t WHERE §)',
    'SELECT a FROM f(§)', 'DELETE FROM t WHERE §', 'DELETE t WHERE §', 'UPDATE t SET a = 1 WHERE §', 'INSERT INTO t (a) VALUES (§)', 'INSERT INTO t (a, b) VALUES (1, §), (2, 3)',
    'MERGE t USING s ON § WHEN MATCHED THEN DELETE', 'MERGE t USING s ON TRUE WHEN MATCHED AND § THEN DELETE', 'MERGE t USING s ON TRUE WHEN NOT MATCHED THEN INSERT (a) VALUES (§)',
    'FROM t |> WHERE §', 'FROM t |> SELECT §', 'FROM t |> EXTEND §', 'FROM t |> ORDER BY §', 'FROM t |> JOIN u ON §', 'FROM t |> AGGREGATE f(§)', 'FROM t |> AGGREGATE f(a) GROUP BY §', 'FROM t |> WHERE § |> LIMIT 1',
    'IF § THEN SELECT 1; END IF', 'IF a THEN SELECT 1; ELSEIF § THEN SELECT 2; END IF', 'WHILE § DO SELECT 1; END WHILE', 'REPEAT SELECT 1; UNTIL § END REPEAT', 'CASE WHEN § THEN SELECT 1; END CASE',
    'CASE § WHEN 1 THEN SELECT 1; END CASE', 'DECLARE x INT64 DEFAULT §', 'DECLARE x DEFAULT §', 'SET x = (§)', 'CALL p(§)', 'CALL p(1, §)', 'ASSERT §', "ASSERT § AS 'm'", 'EXECUTE IMMEDIATE "x" USING §',
    'CREATE FUNCTION f() AS (§)', 'CREATE TEMP FUNCTION f(a INT64) RETURNS INT64 AS (§)', 'CREATE ROW ACCESS POLICY p ON t GRANT TO ("u") FILTER USING (§)', 'CREATE TABLE t PARTITION BY § AS SELECT 1', 'CREATE TABLE t CLUSTER BY a, §',
    'CREATE TABLE t (a INT64 DEFAULT §)', 'SELECT a FROM t WINDOW w AS (PARTITION BY §)', 'SELECT * REPLACE (§ AS a) FROM t', 'SELECT DISTINCT §', 'SELECT AS STRUCT §', 'SELECT ALL §'],
  query: ['§', '§;', '(§)', '((§))', 'SELECT (§)', 'SELECT f((§))', 'SELECT ARRAY(§)', 'SELECT EXISTS(§)', 'SELECT a IN (§)', 'SELECT a NOT IN (§)', 'SELECT a FROM (§)', 'SELECT a FROM (§) AS x', 'SELECT a FROM t JOIN (§) ON b', 'SELECT a FROM t, (§)',
    'SELECT a FROM t WHERE b = (§)', 'SELECT a = ANY (§)', 'WITH c AS (§) SELECT 1', 'WITH RECURSIVE c AS (SELECT 1), d AS (§) SELECT 1', 'SELECT 1 UNION ALL (§)', '(SELECT 1) INTERSECT DISTINCT (§)', '(§) UNION ALL SELECT 1', '(§) ORDER BY 1',
    'INSERT INTO t §', 'INSERT t (a, b) §', 'CREATE TABLE t AS §', 'CREATE OR REPLACE TABLE t PARTITION BY d OPTIONS(a = 1) AS §', 'CREATE VIEW v AS §', 'CREATE OR REPLACE VIEW v (a) AS §', 'CREATE MATERIALIZED VIEW v AS §',
    'CREATE TABLE FUNCTION f() AS §', 'CREATE MODEL m OPTIONS(a = 1) AS §', 'EXPORT DATA OPTIONS(uri = "x") AS §', 'FOR r IN (§) DO SELECT 1; END FOR', 'MERGE t USING (§) ON TRUE WHEN MATCHED THEN DELETE', 'BEGIN §; END', 'IF a THEN §; END IF',
    'IF EXISTS(§) THEN SELECT 1; END IF', 'IF (§) THEN SELECT 1; END IF', 'WHILE (§) DO SELECT 1; END WHILE', 'DECLARE x DEFAULT (§)', 'SET x = (§)', 'CALL p((§))', 'FROM t |> UNION ALL (§)', 'FROM t |> JOIN (§) ON TRUE', 'FROM (§) |> LIMIT 1', 'FROM t |> WHERE a IN (§)', '(§) |> WHERE TRUE',
    'SELECT 1; §', 'SELECT CASE WHEN (§) THEN 1 END', 'UPDATE t SET a = (§) WHERE TRUE', 'DELETE FROM t WHERE EXISTS(§)', 'SELECT [(§)]', 'SELECT STRUCT((§) AS a)', 'SELECT a FROM UNNEST(ARRAY(§))', 'SELECT a FROM UNNEST((§))', 'CREATE FUNCTION f() AS ((§))', 'SELECT a FROM f((§))', 'SELECT a FROM t JOIN u ON EXISTS(§)', 'SELECT a FROM t ORDER BY (§)', 'SELECT a FROM t GROUP BY (§)', 'EXECUTE IMMEDIATE (§)', 'ASSERT (§)', 'ASSERT EXISTS(§)', 'ALTER TABLE t ADD COLUMN c INT64; §'],
  stmts: ['§', 'SELECT 0; §', 'BEGIN § END', 'BEGIN BEGIN § END; END', 'BEGIN SELECT 1; EXCEPTION WHEN ERROR THEN § END', 'BEGIN § EXCEPTION WHEN ERROR THEN SELECT 1; END', 'IF a THEN § END IF', 'IF a THEN SELECT 1; ELSE § END IF', 'IF a THEN SELECT 1; ELSEIF b THEN § END IF', 'IF a THEN § ELSE SELECT 1; END IF',
    'IF a THEN § ELSEIF b THEN SELECT 1; END IF', 'LOOP § END LOOP', 'WHILE a DO § END WHILE', 'REPEAT § UNTIL a END REPEAT', 'FOR r IN (SELECT 1) DO § END FOR', 'CASE WHEN a THEN § END CASE', 'CASE a WHEN 1 THEN § ELSE SELECT 1; END CASE', 'CASE WHEN a THEN SELECT 1; ELSE § END CASE', 'CASE WHEN a THEN § WHEN b THEN SELECT 1; END CASE',
    'CREATE PROCEDURE p() BEGIN § END', 'CREATE OR REPLACE PROCEDURE p(INOUT a INT64) OPTIONS(strict_mode = TRUE) BEGIN § END', 'lbl: BEGIN § END lbl', 'lbl: LOOP § END LOOP lbl', 'lbl: WHILE a DO § END WHILE lbl', 'lbl: FOR r IN (SELECT 1) DO § END FOR', 'lbl: REPEAT § UNTIL a END REPEAT'],
  type: ['SELECT CAST(a AS §)', 'SELECT SAFE_CAST(a AS §)', 'DECLARE x §', 'DECLARE x, y §', 'DECLARE x § DEFAULT 1', 'CREATE TABLE t (a §)', 'CREATE TABLE t (a §, b INT64)', 'CREATE TABLE t (a INT64, b §)', 'CREATE FUNCTION f(a §) AS (1)', 'CREATE FUNCTION f(a INT64, b §) AS (1)', 'CREATE FUNCTION f() RETURNS § AS (1)', 'CREATE TEMP FUNCTION f() RETURNS § LANGUAGE js AS "x"',
    'CREATE PROCEDURE p(a §) BEGIN END', 'CREATE PROCEDURE p(OUT a §) BEGIN END', 'ALTER TABLE t ADD COLUMN a §', 'ALTER TABLE t ALTER COLUMN a SET DATA TYPE §', 'SELECT CAST(a AS ARRAY<§>)', 'SELECT CAST(a AS STRUCT<x §>)', 'SELECT CAST(a AS STRUCT<x INT64, y §>)', 'SELECT ARRAY<§>[]', 'CREATE TABLE t (a STRUCT<x §>)', 'DECLARE x ARRAY<§>', 'CREATE TABLE FUNCTION f(a §) AS SELECT 1', 'CREATE TABLE t (a ARRAY<§>)', 'CREATE EXTERNAL TABLE t (a §) OPTIONS(x = 1)', 'SELECT STRUCT<x §>(1)'],
  table: ['SELECT a FROM §', 'SELECT a FROM § WHERE b', 'SELECT a FROM §, u', 'SELECT a FROM u, §', 'SELECT a FROM u JOIN § ON b', 'SELECT a FROM u LEFT JOIN § USING (c)', 'SELECT a FROM § CROSS JOIN u', 'SELECT a FROM § JOIN u ON b', 'SELECT a FROM (§ JOIN u ON b)', 'SELECT a FROM (u JOIN § ON b)', 'FROM §', 'FROM § |> LIMIT 1', 'FROM u |> JOIN § ON b', 'SELECT (SELECT a FROM §)', 'SELECT a FROM § ORDER BY 1', 'SELECT a FROM § LIMIT 1', 'SELECT a FROM § GROUP BY 1', 'SELECT a FROM § UNION ALL SELECT 1', 'CREATE VIEW v AS SELECT a FROM §', 'WITH c AS (SELECT a FROM §) SELECT 1', 'INSERT INTO u SELECT a FROM §', 'SELECT ARRAY(SELECT a FROM §)', 'SELECT a FROM § QUALIFY b', 'SELECT a FROM § HAVING b', 'SELECT a FROM § WINDOW w AS (ORDER BY x)', 'SELECT a FROM u FULL OUTER JOIN § ON b'],
};
// Places whose grammar gives the same words another reading:
//  ((SELECT 1)) in an expression is a parenthesized expression, not a parenthesized query;
//  INSERT t (..) starts a column list and CREATE MODEL .. AS (..) a list of named inputs.
const IN_EXPR = /SELECT \(§\)|f\(\(§\)\)|ARRAY\(§\)|EXISTS\(§\)|IN \(§\) |IN \(§\)$|= \(§\)|ANY \(§\)|IF \(§\)|WHILE \(§\)|DEFAULT \(§\)|p\(\(§\)\)|UNION ALL \(§\)$|WHEN \(§\)|\[\(§\)\]|STRUCT\(\(§\)|UNNEST\(\(§\)\)|AS \(\(§\)\)|BY \(§\)|IMMEDIATE \(§\)|ASSERT \(§\)/;
function skip(kind, c, p, n) {
  const first = p.toks[0].lit.toUpperCase();
  if (kind === 'expr' && /GROUP BY §/.test(c) && ['ROLLUP', 'CUBE', 'GROUPING', 'ALL'].includes(first)) return true;
  if (kind === 'query' && first === '(') {
    if (/^INSERT INTO t §|^CREATE MODEL/.test(c)) return true;
    if (IN_EXPR.test(c) && !/^FOR r/.test(c) && !c.startsWith('SELECT 1 UNION') && n.node_type === 'GroupedStatement' && !n.children.orderby && !n.children.limit) return true;
  }
  return false;
}
function phraseOf(text) { const l = reflex(text); if (l.err) return null; const toks = l.toks.filter((t) => !t.comment); return toks.length ? { text, toks } : null; }
// span (in code points) of every node; returns outermost node covering exactly [a, b), or the list of nodes for statements
function locate(roots, src, a, b, kind) {
  const list = kind === 'stmts';
  let found = null;
  const rec = (n) => {
    let lo = Infinity, hi = -1, lo2 = Infinity, hi2 = -1; // with and without what the context hangs on the phrase
    if (n.token !== null) { lo = src.offset(n.token.line, n.token.column); hi = lo + [...n.token.literal].length; lo2 = lo; hi2 = hi; }
    for (const k of Object.keys(n.children)) {
      if (k === 'leading_comments' || k === 'trailing_comments') continue;
      const c = n.children[k];
      let l = Infinity, h = -1;
      for (const x of c.Node !== undefined ? [c.Node] : c.NodeVec) { const s = rec(x); l = Math.min(l, s[0]); h = Math.max(h, s[1]); }
      if (list && c.NodeVec && l === a && h === b) found = c.NodeVec;
      lo = Math.min(lo, l); hi = Math.max(hi, h);
      if (!ROOTKEYS[kind].has(k)) { lo2 = Math.min(lo2, l); hi2 = Math.max(hi2, h); }
    }
    if (!list && ((lo === a && hi === b) || (lo2 === a && hi2 === b))) found = n; // parents are visited after their children: the outermost wins
    return [lo, hi];
  };
  const spans = roots.map(rec);
  if (list && !found) { const s = roots.filter((n, i) => n.node_type !== 'EOF' && spans[i][0] >= a && spans[i][1] <= b); if (s.length) found = s; }
  return found;
}
const ROOTKEYS = { expr: new Set(['comma', 'as', 'alias', 'order', 'null_order']), query: new Set(['semicolon', 'comma', 'as', 'alias']), type: new Set(['comma']), table: new Set(['comma']), stmts: new Set() };
function view(n, kind) { // canonical text without what the context itself hangs on the phrase
  if (kind === 'stmts') return n.map((x) => canon(x)).join('\n');
  return canon({ token: n.token, node_type: n.node_type, children: Object.fromEntries(Object.entries(n.children).filter(([k]) => !ROOTKEYS[kind].has(k))) });
}
function embed(ctx, kind, c, ph) {
  const at = c.indexOf('§'), text = c.slice(0, at) + ph.text + '\n' + c.slice(at + 1);
  const res = ctx.t().parse(text);
  if (res.kind !== 'ok') return { text, kind: res.kind, error: res.value };
  const src = new Source(text);
  const l = reflex(text).toks.filter((t) => !t.comment), off = [...c.slice(0, at)].length;
  const base = c.slice(0, at).trim() === '' ? 0 : reflex(c.slice(0, at)).toks.length;
  const f = l[base], g = l[base + ph.toks.length - 1];
  const a = src.offset(f.line, f.column), b = src.offset(g.line, g.column) + [...g.lit].length;
  const n = locate(res.value, src, a, b, kind);
  return { text, kind: 'ok', view: n ? view(n, kind) : null, n };
}
let POOL = null;
function pool(ctx) { // phrases cut from the seed scripts, by the place they stand in
  if (POOL) return POOL;
  POOL = { expr: [], query: [], stmts: [], type: [], table: [] };
  for (const s of seeds.ok) {
    const res = ctx.t().parse(s); if (res.kind !== 'ok') continue;
    const l = reflex(s); if (l.err) continue;
    const src = new Source(s);
    const cps = [...s];
    const spanOf = (n) => { let lo = Infinity, hi = -1; const rec = (m) => { if (m.token) { const o = src.offset(m.token.line, m.token.column); lo = Math.min(lo, o); hi = Math.max(hi, o + [...m.token.literal].length); } for (const k of Object.keys(m.children)) { if (/_comments$/.test(k)) continue; const c = m.children[k]; (c.Node !== undefined ? [c.Node] : c.NodeVec).forEach(rec); } }; rec(n); return [lo, hi]; };
    const add = (kind, n) => { if (kind !== 'stmts' && Object.keys(n.children).some((k) => ROOTKEYS[kind].has(k) && k !== 'semicolon')) return; if (kind === 'query' && n.children.semicolon) n = Object.assign({}, n, { children: Object.fromEntries(Object.entries(n.children).filter(([k]) => k !== 'semicolon')) }); const [a, b] = spanOf(n); const p = phraseOf(cps.slice(a, b).join('')); if (p) POOL[kind].push(p); };
    const rec = (n) => {
      const c = n.children;
      for (const k of ['where', 'having', 'qualify', 'on']) if (c[k] && c[k].Node && c[k].Node.node_type === 'KeywordWithExpr') add('expr', c[k].Node.children.expr.Node);
      if (n.node_type === 'SelectStatement') for (const e of c.exprs.NodeVec) if (e.node_type !== 'Asterisk' && !(e.node_type === 'DotOperator' && e.children.right.Node.node_type === 'Asterisk')) add('expr', e);
      if (n.node_type === 'SelectStatement' && c.from && c.from.Node.children.expr.Node.node_type !== 'JoinOperator') add('table', c.from.Node.children.expr.Node);
      if (n.node_type === 'GroupedStatement' && c.stmt) add('query', c.stmt.Node);
      for (const k of Object.keys(c)) { const v = c[k]; (v.Node !== undefined ? [v.Node] : v.NodeVec).forEach(rec); }
    };
    res.value.forEach(rec);
    for (const n of res.value) { if (['SelectStatement', 'SetOperator', 'PipeStatement', 'FromStatement'].includes(n.node_type)) add('query', n); if (n.children.semicolon) add('stmts', n); }
  }
  return POOL;
}
function phrase(kind, r, ctx) {
  if (kind !== 'type' && r.bool(0.3)) { const p = pool(ctx)[kind]; if (p.length) return Object.assign({ src: 'seed' }, r.pick(p)); }
  const g = new Gen(r, { fuel: r.range(3, 40), noTmpl: true });
  if (r.bool(0.5)) direct(g, r, kind === 'stmts' ? 'stmt' : kind);
  if (kind === 'expr') g.expr();
  else if (kind === 'query') g.query();
  else if (kind === 'type') g.type();
  else if (kind === 'table') g.table();
  else for (let k = 0, m = r.range(1, 2); k < m; k++) { g.semi(g.statement()); g.r = r; }
  const p = phraseOf(layout(g.toks, r, r.pick(STYLES)).text);
  return p && Object.assign(p, { src: 'gen' });
}
function one(r, ctx) {
  const kind = r.weighted([[5, 'expr'], [4, 'query'], [3, 'stmts'], [1, 'type'], [2, 'table']]);
  const ph = phrase(kind, r, ctx);
  if (!ph) return {};
  const home = embed(ctx, kind, CTX[kind][0], ph);
  const c = r.pick(CTX[kind]);
  const out = { kind, ph, c };
  if (home.kind !== 'ok') return Object.assign(out, { sig: home.kind === 'crash' ? null : 'rejected-at-home:' + kind, d: home.error, text: home.text });
  if (!home.view) return Object.assign(out, { lost: true, text: home.text });
  if (skip(kind, c, ph, home.n)) return Object.assign(out, { skipped: true });
  const e = embed(ctx, kind, c, ph);
  out.text = e.text; out.ok = true;
  if (e.kind === 'crash') return Object.assign(out, { sig: null });
  if (e.kind === 'err') return Object.assign(out, { sig: 'rejected-in:' + c, d: { context: c, error: e.error } });
  if (!e.view) return Object.assign(out, { sig: 'not-one-phrase-in:' + c, d: { context: c } });
  if (e.view !== home.view) return Object.assign(out, { sig: 'differs-in:' + c, d: diff(home.view, e.view) });
  return out;
}
module.exports = {
  directed: ['stmt', 'query', 'expr', 'type', 'table'],
  rule: 'a phrase (expression, query, list of statements, type or table; generated or cut from a seed script) whose subtree in one place was compared with its subtree in another; distinct = distinct (context, token sequence) pairs',
  budget: { quick: 132000, thorough: 800000 },
  run(i, r, ctx) {
    const x = one(r, ctx);
    if (x.lost) { ctx.count('phrase_not_a_subtree_at_home'); if (process.env.DBG) console.log(x.kind, JSON.stringify(x.text)); return; }
    if (x.skipped) { ctx.count('context_reads_the_phrase_differently'); return; }
    if (x.ok) { ctx.observed(x.c + '|' + x.ph.toks.map((t) => t.lit).join(' '), x.text); ctx.tally('contexts', x.c); ctx.tally('phrases', x.kind + ' ' + x.ph.src); }
    if (x.sig) ctx.violation({ sig: x.sig, input: x.text, detail: x.d });
  },
  shrinkCase(v, rng, ctx) {
    const sh = require('../lib/shrink.js').shrink(rng, (q) => one(q, ctx).sig, 8000);
    return sh ? one(sh.rng, ctx).text : undefined;
  },
};
