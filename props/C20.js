'use strict';
const { anyText } = require('../lib/workload.js');
const { RESERVED } = require('../lib/gen/core.js');
const { reflex } = require('../lib/reflex.js');
// Aliases: without AS never a reserved keyword or a symbol, and only on what can be named.
const R = new Set(RESERVED);
const WORD = /^[A-Za-z_]/;
const NEVER = new Set('WHERE HAVING QUALIFY ON LIMIT OFFSET AND UNTIL DEFAULT FORMAT MAX MIN'.split(' ')); // of KeywordWithExpr: conditions and values
const OPERANDS = /^(BinaryOperator|UnaryOperator|BetweenOperator|InOperator|IsDistinctFromOperator|DotOperator|AccessOperator|CaseExpr|CaseExprArm|LimitClause|XXXByExprs|ArrayLiteral|IfStatement|WhileStatement|ElseIfClause|CaseStatement|CaseStatementArm|SetStatement|IntervalLiteral|CastArgument|ExtractArgument)\.(?!alias$|with_offset$|pivot$|unpivot$|match_recognize$)/;
// where the library attaches aliases: what can be named (and, for `up` and `word`, in which clause)
const NAMED = /^(SelectStatement\.exprs|StructLiteral\.exprs|FromStatement\.expr|JoinOperator\.(left|right)|(Select|Union|Aggregate|Join)PipeOperator\.exprs|GroupedExpr\.expr|(Merge|Delete|Update)Statement\.table_name|PivotConfig\.exprs|UnpivotConfig\.expr|PipeStatement\.right|\w+\.(pivot|unpivot|match_recognize|with_offset))$/;
function named(place, word, up) {
  if (NAMED.test(place)) return true;
  switch (place) {
    case 'KeywordWithExpr.expr': return /\.(from|using|clone)$/.test(up);
    case 'KeywordWithExprs.exprs': return /^(MatchRecognizeConfig\.(measures|define)|ExecuteStatement\.using)$/.test(up);
    case 'GroupedExprs.exprs': return /^KeywordWithGroupedXXX\.group$/.test(up);
    case 'BasePipeOperator.exprs': return /^(EXTEND|RENAME|CALL|AS)$/.test(word);
    case 'GroupByExprs.exprs': return up === 'AggregatePipeOperator.groupby';
    default: return false;
  }
}
// a called name may be spread over several nodes (a.with(...), x-with(...))
function hasWith(n) {
  if (n.token && n.token.literal.toUpperCase() === 'WITH') return true;
  return Object.values(n.children).some((v) => (v.NodeVec !== undefined ? v.NodeVec : [v.Node]).some((m) => m && hasWith(m)));
}
function check(roots, seen) {
  let bad = null;
  const rec = (n, place, word, up, fn) => { // up: place of the parent
    if (bad) return;
    const al = n.children.alias && n.children.alias.Node;
    if (al) {
      const lit = al.token ? al.token.literal : '';
      if (!n.children.as) {
        if (R.has(lit.toUpperCase())) bad = { sig: 'reserved word as alias:' + place, detail: { alias: lit, of: n.node_type } };
        else if (!WORD.test(lit) && !/^[`'"{0-9.@]/.test(lit)) bad = { sig: 'symbol as alias:' + place, detail: { alias: lit, of: n.node_type } };
      }
      if (OPERANDS.test(place) || (place === 'KeywordWithExpr.expr' && NEVER.has(word) && !/\.(using|from|clone)$/.test(up))) bad = bad || { sig: 'alias where there is nothing to name:' + place + ':' + word, detail: { alias: lit, of: n.node_type } };
      if (!bad && !named(place, word, up) && !(/^Calling\w+\.args$/.test(place) && fn === 'WITH')) bad = { sig: 'alias where there is nothing to name:' + up + '>' + place + ':' + word, detail: { alias: lit, of: n.node_type, function: fn } };
      if (seen) seen.add(place + (place.startsWith('Keyword') ? ':' + word : '') + (n.children.as ? ' AS' : ''));
    }
    for (const k of Object.keys(n.children)) { const v = n.children[k]; for (const m of v.NodeVec !== undefined ? v.NodeVec : [v.Node]) rec(m, n.node_type + '.' + k, n.token ? n.token.literal.toUpperCase() : '', place, n.children.func && n.children.func.Node && hasWith(n.children.func.Node) ? 'WITH' : ''); }
  };
  for (const n of roots) rec(n, 'script.', '', '', '');
  return bad;
}
// every reserved word x every place an alias without AS may stand (and some where none may)
const GRID = ['SELECT a %', 'SELECT a %, b', 'SELECT a % FROM t', 'SELECT f(a) % FROM t', 'SELECT 1 + b % FROM t', 'SELECT (SELECT 1) % FROM t', 'SELECT STRUCT(a %)', 'SELECT AS STRUCT a %, b', 'SELECT * FROM t %', 'SELECT * FROM t.u %, v',
  'SELECT * FROM (SELECT 1) %', 'SELECT * FROM UNNEST(a) %', 'SELECT * FROM UNNEST(a) % WITH OFFSET b', 'SELECT * FROM UNNEST(a) WITH OFFSET %', 'SELECT * FROM f(a) %', 'SELECT * FROM t JOIN u % ON TRUE', 'SELECT * FROM t % JOIN u USING (a)',
  'SELECT * FROM t % WHERE TRUE', 'SELECT * FROM t PIVOT(SUM(a) % FOR b IN (1 c))', 'SELECT * FROM t PIVOT(SUM(a) FOR b IN (1 %, 2))', 'SELECT * FROM t PIVOT(SUM(a) FOR b IN (1)) %', 'SELECT * FROM t UNPIVOT(a FOR b IN (c)) %',
  'FROM t %', 'FROM t % |> WHERE TRUE', 'FROM t |> SELECT a %', 'FROM t |> EXTEND a %, b c', 'FROM t |> RENAME a %', 'FROM t |> AGGREGATE SUM(a) % GROUP BY b', 'FROM t |> AGGREGATE SUM(a) GROUP BY b %', 'FROM t |> JOIN u % ON TRUE',
  'FROM t |> PIVOT(SUM(a) FOR b IN (1)) %', 'FROM t |> CALL f(a) %', 'UPDATE t % SET a = 1 WHERE TRUE', 'UPDATE t SET a = 1 FROM u % WHERE TRUE', 'DELETE t % WHERE TRUE', 'DELETE FROM t.u % WHERE TRUE', 'MERGE t % USING s ON TRUE WHEN MATCHED THEN DELETE',
  'MERGE t USING s % ON TRUE WHEN MATCHED THEN DELETE', 'MERGE t USING (SELECT 1) % ON TRUE WHEN MATCHED THEN DELETE', 'EXECUTE IMMEDIATE a USING b %', 'SELECT a FROM t WHERE b %', 'SELECT a FROM t HAVING b %', 'SELECT a FROM t ORDER BY b %', 'SELECT a FROM t LIMIT 1 %',
  'SELECT a FROM t JOIN u ON b % WHERE c', 'SELECT [a %]', 'SELECT CASE WHEN a % THEN b END', 'IF a % THEN SELECT 1; END IF', 'SET a = b %', 'DELETE t WHERE a %', 'SELECT SUM(a) OVER (PARTITION BY b %)', 'FROM t |> WHERE a %', 'FROM t |> ORDER BY a %', 'FROM t |> SET a = b %', 'FROM t |> DROP a %', 'FROM t |> WHERE a % |> LIMIT 1', 'SELECT a GROUP BY a %', 'UPDATE t SET a = b % WHERE TRUE', 'INSERT t (a %) VALUES (1)', 'INSERT t (a) VALUES (b %)', 'SELECT f(a %)', 'SELECT f(a %, b)', 'CALL p(a %)', 'SELECT a FROM t QUALIFY b %', 'SELECT a FROM t LIMIT 1 OFFSET 2 %', 'DECLARE a INT64 DEFAULT b %', 'ASSERT a %', 'SELECT a IN (b %)', 'SELECT CAST(a % AS INT64)', 'SELECT a FROM t TABLESAMPLE SYSTEM (1 % PERCENT)', 'SELECT SUM(a) OVER (ROWS BETWEEN 1 % PRECEDING AND 2 FOLLOWING)', 'MERGE t USING s ON a % WHEN MATCHED THEN DELETE', 'MERGE t USING s ON TRUE WHEN MATCHED AND a % THEN DELETE', 'MERGE t USING s ON TRUE WHEN MATCHED THEN UPDATE SET a = b %', 'CREATE TABLE t (a INT64 DEFAULT b %)', 'CREATE TABLE t (a INT64) PARTITION BY a %', 'CREATE TABLE t (a INT64) CLUSTER BY a %', 'CREATE TABLE t (a INT64) OPTIONS (b = c %)', 'CREATE FUNCTION f() AS (a %)', 'FOR a IN (SELECT 1) DO SELECT 1; END FOR; RETURN %', 'WHILE a % DO SELECT 1; END WHILE', 'REPEAT SELECT 1; UNTIL a % END REPEAT', 'CASE a % WHEN 1 THEN SELECT 1; END CASE', 'CASE WHEN a % THEN SELECT 1; END CASE', "RAISE USING MESSAGE = a %", 'EXECUTE IMMEDIATE a %', 'EXPORT DATA OPTIONS (a = b %) AS SELECT 1', 'SELECT a FROM t FOR SYSTEM_TIME AS OF b %', 'SELECT a[b %]', 'SELECT a[OFFSET(b %)]', 'SELECT INTERVAL a % DAY', 'SELECT EXTRACT(DAY FROM a %)', 'SELECT a BETWEEN b % AND c', 'SELECT a FROM UNNEST(b %)', 'SELECT * EXCEPT (a %)', 'SELECT a FROM t JOIN u USING (b %)', 'SELECT f(a ORDER BY b %)', 'SELECT f(a LIMIT b %)', 'SELECT f(a HAVING MAX b %)', 'ALTER TABLE t SET OPTIONS (a = b %)', 'GRANT a % ON TABLE b TO c'];
const WORDS = [...RESERVED, 'AS zz', 'zz', '`zz`', ';', '=', ','];
module.exports = {
  rule: 'an accepted text with at least one alias in its tree, every alias checked; distinct = distinct sets of (place of the alias, with or without AS)',
  budget: { quick: 260000, thorough: 1500000 },
  run(i, r, ctx) {
    const g = GRID.length * WORDS.length;
    let text;
    if (i < g * 2) {
      let w = WORDS[i % WORDS.length]; if (i >= g) w = [...w].map((c) => (r.bool() ? c.toLowerCase() : c)).join('');
      text = GRID[Math.floor(i / WORDS.length) % GRID.length].replace('%', w); ctx.count('grid_texts');
    } else {
      const a = anyText(r, [[2, 'seed'], [5, 'gen'], [2, 'mut']]); text = a.text;
      const l = reflex(text), k = l.toks.filter((x) => !x.comment);
      if (!l.err && k.length && r.bool(0.9)) {
        const x = r.pick(k), w = r.weighted([[5, () => r.pick(RESERVED)], [1, () => 'AS zz'], [2, () => 'zz'], [1, () => r.pick([';', '=', '+', '|>', ':'])]])();
        text = text.slice(0, x.end) + ' ' + w + ' ' + text.slice(x.end);
      }
    }
    const res = ctx.t().parse(text);
    if (res.kind !== 'ok') { ctx.count(res.kind === 'err' ? 'rejected_texts' : 'crashed_texts_left_to_C04'); return; }
    const seen = new Set();
    const bad = check(res.value, seen);
    ctx.count('accepted_texts');
    for (const s of seen) ctx.tally('alias_at', s);
    if (seen.size) ctx.observed([...seen].sort().join(), text);
    if (bad) ctx.violation({ sig: bad.sig, input: text, detail: bad.detail });
  },
};
