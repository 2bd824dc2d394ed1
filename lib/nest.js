'use strict';
// Families of scripts indexed by a size k: nested k deep, or k long.
const rep = (s, k) => s.repeat(k);
const NEST = {
  paren: (k) => 'SELECT ' + rep('(', k) + '1' + rep(')', k),
  array: (k) => 'SELECT ' + rep('[', k) + '1' + rep(']', k),
  tuple: (k) => 'SELECT ' + rep('(1, ', k) + '2' + rep(')', k),
  struct: (k) => 'SELECT ' + rep('STRUCT(', k) + '1' + rep(' AS a)', k),
  call: (k) => 'SELECT ' + rep('f(', k) + 'x' + rep(')', k),
  call_args: (k) => 'SELECT ' + rep('f(1, a => ', k) + 'x' + rep(')', k),
  cast: (k) => 'SELECT ' + rep('CAST(', k) + 'x' + rep(' AS INT64)', k),
  extract: (k) => 'SELECT ' + rep('EXTRACT(DAY FROM ', k) + 'x' + rep(')', k),
  case_when: (k) => 'SELECT ' + rep('CASE WHEN a THEN ', k) + '1' + rep(' ELSE 0 END', k),
  case_else: (k) => 'SELECT ' + rep('CASE a WHEN 1 THEN 2 ELSE ', k) + '1' + rep(' END', k),
  unary_minus: (k) => 'SELECT ' + rep('- ', k) + '1',
  not: (k) => 'SELECT ' + rep('NOT ', k) + 'x',
  subscript: (k) => 'SELECT ' + rep('a[', k) + '0' + rep(']', k),
  scalar_subquery: (k) => 'SELECT ' + rep('(SELECT ', k) + '1' + rep(')', k),
  in_subquery: (k) => 'SELECT 1 FROM t WHERE ' + rep('a IN (SELECT b FROM t WHERE ', k) + 'TRUE' + rep(')', k),
  in_list: (k) => 'SELECT ' + rep('a IN (', k) + '1' + rep(')', k),
  exists: (k) => 'SELECT ' + rep('EXISTS(SELECT 1 FROM t WHERE ', k) + 'TRUE' + rep(')', k),
  from_subquery: (k) => 'SELECT 1 FROM ' + rep('(SELECT 1 FROM ', k) + 't' + rep(')', k),
  from_first: (k) => 'FROM ' + rep('(FROM ', k) + 't' + rep(')', k),
  from_pipe: (k) => rep('(FROM ', k) + 't' + rep(' |> LIMIT 1)', k),
  paren_join: (k) => 'SELECT 1 FROM ' + rep('(', k) + 't' + rep(' JOIN u USING (a))', k),
  paren_subquery_join: (k) => 'SELECT 1 FROM ' + rep('(', k) + '(SELECT 1)' + rep(' JOIN u ON TRUE)', k),
  paren_cross_join: (k) => 'SELECT 1 FROM ' + rep('((SELECT 1) AS a CROSS JOIN ', k) + 't' + rep(')', k),
  paren_query: (k) => rep('(', k) + 'SELECT 1' + rep(')', k),
  paren_setop: (k) => rep('(', k) + 'SELECT 1' + rep(' UNION ALL SELECT 2)', k),
  with: (k) => rep('WITH a AS (', k) + 'SELECT 1' + rep(') SELECT 1', k),
  with_expr: (k) => 'SELECT ' + rep('WITH(a AS 1, ', k) + 'a' + rep(')', k),
  type_array: (k) => 'DECLARE x ' + rep('ARRAY<STRUCT<a ', k) + 'INT64' + rep('>>', k),
  type_struct: (k) => 'CREATE TABLE t (c ' + rep('STRUCT<a ', k) + 'INT64' + rep('>', k) + ')',
  typed_array: (k) => 'SELECT ' + rep('ARRAY<INT64>[', k) + '1' + rep(']', k),
  window: (k) => 'SELECT ' + rep('f(1) OVER (ORDER BY ', k) + '1' + rep(')', k),
  between: (k) => 'SELECT ' + rep('a BETWEEN (', k) + '1' + rep(') AND 2', k),
  like: (k) => 'SELECT ' + rep("a LIKE ANY ('x', ", k) + "'y'" + rep(')', k),
  pattern: (k) => 'SELECT * FROM t MATCH_RECOGNIZE (ORDER BY a MEASURES x AS y PATTERN (' + rep('(', k) + 'a' + rep(')', k) + ') DEFINE a AS TRUE)',
  begin: (k) => rep('BEGIN ', k) + 'SELECT 1;' + rep(' END;', k),
  if: (k) => rep('IF a THEN ', k) + 'SELECT 1;' + rep(' END IF;', k),
  if_else: (k) => rep('IF a THEN SELECT 2; ELSE ', k) + 'SELECT 1;' + rep(' END IF;', k),
  loop: (k) => rep('LOOP ', k) + 'BREAK;' + rep(' END LOOP;', k),
  while: (k) => rep('WHILE a DO ', k) + 'CONTINUE;' + rep(' END WHILE;', k),
  repeat: (k) => rep('REPEAT ', k) + 'BREAK;' + rep(' UNTIL a END REPEAT;', k),
  for: (k) => rep('FOR x IN (SELECT 1) DO ', k) + 'SELECT x;' + rep(' END FOR;', k),
  case_stmt: (k) => rep('CASE WHEN a THEN ', k) + 'SELECT 1;' + rep(' END CASE;', k),
  procedure: (k) => rep('CREATE PROCEDURE p() BEGIN ', k) + 'SELECT 1;' + rep(' END;', k),
  interval: (k) => 'SELECT ' + rep('INTERVAL (', k) + '1' + rep(') DAY', k),
  chain: (k) => 'SELECT (x)' + rep('.f(1)', k),
  options: (k) => 'CREATE TABLE t (a INT64) OPTIONS(x = ' + rep('[', k) + '1' + rep(']', k) + ')',
  unnest: (k) => 'SELECT * FROM ' + rep('UNNEST(ARRAY(SELECT a FROM ', k) + 't' + rep('))', k),
  pivot: (k) => 'SELECT * FROM ' + rep('(SELECT * FROM ', k) + 't' + rep(" PIVOT (SUM(a) FOR b IN ('x')))", k),
  tvf: (k) => 'SELECT * FROM ' + rep('f(TABLE a, (SELECT 1 FROM ', k) + 't' + rep('))', k),
};
const LONG = {
  add: (k) => 'SELECT ' + rep('1 + ', k) + '1',
  and: (k) => 'SELECT ' + rep('a = 1 AND ', k) + 'TRUE',
  or_like: (k) => 'SELECT ' + rep("a LIKE 'x' OR ", k) + 'TRUE',
  concat: (k) => 'SELECT ' + rep("'a' || ", k) + "'b'",
  dots: (k) => 'SELECT a' + rep('.b', k),
  subscripts: (k) => 'SELECT a' + rep('[0]', k),
  select_list: (k) => 'SELECT ' + rep('a AS b, ', k) + '1',
  args: (k) => 'SELECT f(' + rep('x, ', k) + '1)',
  array_elems: (k) => 'SELECT [' + rep('1, ', k) + '1]',
  in_elems: (k) => 'SELECT a IN (' + rep("'x', ", k) + "'y')",
  struct_elems: (k) => 'SELECT STRUCT(' + rep('1 AS a, ', k) + '2 AS b)',
  case_arms: (k) => 'SELECT CASE ' + rep('WHEN a = 1 THEN 2 ', k) + 'END',
  joins: (k) => 'SELECT 1 FROM t' + rep(' JOIN u ON a = b', k),
  comma_joins: (k) => 'SELECT 1 FROM t' + rep(', u AS v', k),
  left_joins: (k) => 'SELECT 1 FROM t' + rep(' LEFT OUTER JOIN u USING (a)', k),
  unions: (k) => 'SELECT 1' + rep(' UNION ALL SELECT 2', k),
  paren_unions: (k) => '(SELECT 1)' + rep(' UNION ALL (SELECT 2)', k),
  ctes: (k) => 'WITH ' + rep('a AS (SELECT 1), ', k) + 'b AS (SELECT 2) SELECT 3',
  pipes: (k) => 'FROM t' + rep(' |> WHERE a = 1', k),
  pipe_joins: (k) => 'FROM t' + rep(' |> JOIN u USING (a) |> AGGREGATE COUNT(*) GROUP BY a', k),
  order_by: (k) => 'SELECT 1 FROM t ORDER BY ' + rep('a DESC NULLS LAST, ', k) + 'b',
  group_by: (k) => 'SELECT 1 FROM t GROUP BY ' + rep('a, ', k) + 'b',
  statements: (k) => rep('SELECT 1;\n', k),
  sets: (k) => rep('SET a = 1;', k),
  declares: (k) => rep('DECLARE x INT64 DEFAULT 1;', k),
  block: (k) => 'BEGIN ' + rep('SELECT 1; ', k) + 'END;',
  elseifs: (k) => 'IF a THEN SELECT 1; ' + rep('ELSEIF b THEN SELECT 2; ', k) + 'END IF;',
  columns: (k) => 'CREATE TABLE t (' + rep('a INT64 NOT NULL, ', k) + 'b STRING)',
  fields: (k) => 'CREATE TABLE t (x STRUCT<' + rep('a INT64, ', k) + 'b STRING>)',
  values: (k) => 'INSERT INTO t VALUES ' + rep('(1, "a"), ', k) + '(2, "b")',
  updates: (k) => 'UPDATE t SET ' + rep('a = 1, ', k) + 'b = 2 WHERE TRUE',
  merges: (k) => 'MERGE t USING s ON a = b ' + rep('WHEN MATCHED AND x = 1 THEN UPDATE SET a = 1 ', k),
  options_list: (k) => 'CREATE TABLE t (a INT64) OPTIONS(' + rep('x = 1, ', k) + 'y = 2)',
  alter: (k) => 'ALTER TABLE t ' + rep('ADD COLUMN a INT64, ', k) + 'ADD COLUMN b STRING',
  comments: (k) => 'SELECT 1 ' + rep('/* c */ ', k) + '+ 2',
  line_comments: (k) => rep('-- c\n', k) + 'SELECT 1 < 2',
  commented_items: (k) => 'SELECT ' + rep('a, -- c\n', k) + '1',
  trailing_comments: (k) => 'SELECT 1;' + rep('\n-- c', k),
  long_string: (k) => "SELECT '" + rep('abcdefgh', k) + "'",
  triple_string: (k) => "SELECT '''" + rep("a'b\n", k) + "'''",
  long_ident: (k) => 'SELECT ' + rep('abcdefgh', k),
  long_quoted: (k) => 'SELECT `' + rep('abcdefgh', k) + '`',
  long_number: (k) => 'SELECT ' + rep('12345678', k),
  long_comment: (k) => 'SELECT 1 /*' + rep(' abc\n', k) + '*/',
  template: (k) => 'SELECT {{ ' + rep('abcdefgh', k) + ' }}',
  whitespace: (k) => 'SELECT' + rep(' \n', k) + '1',
  dashes: (k) => 'SELECT 1 FROM a' + rep('-b', k),
  path: (k) => 'SELECT 1 FROM a' + rep('.b', k),
  patterns: (k) => 'SELECT * FROM t MATCH_RECOGNIZE (ORDER BY a MEASURES x AS y PATTERN (' + rep('a* | b+ ', k) + ') DEFINE a AS TRUE)',
  strings: (k) => 'SELECT ' + rep("'a' AS x, \"b\" y, ", k) + '1',
  windows: (k) => 'SELECT ' + rep('f(a) OVER (PARTITION BY b ORDER BY c), ', k) + '1',
  arrows: (k) => 'SELECT ' + rep('a < b, ', k) + '1',
  type_lists: (k) => 'SELECT ' + rep('ARRAY<INT64>[1], ', k) + '1',
  excepts: (k) => 'SELECT * EXCEPT (' + rep('a, ', k) + 'b)',
  grants: (k) => "GRANT `r` ON TABLE t TO " + rep("'u', ", k) + "'v'",
};
module.exports = { NEST, LONG };
// wrappers: [kind produced, kind needed, before, after]; e expression, q query, t table, s statement
const WRAPS = [
  ['e', 'e', '(', ')'], ['e', 'e', '[', ']'], ['e', 'e', 'f(', ')'], ['e', 'e', 'CASE WHEN a THEN ', ' END'], ['e', 'e', '- ', ''], ['e', 'e', 'a[', ']'], ['e', 'e', 'STRUCT(', ')'],
  ['e', 'e', 'CAST(', ' AS INT64)'], ['e', 'e', '(1, ', ')'], ['e', 'e', 'f(a => ', ')'], ['e', 'e', 'f(1) OVER (PARTITION BY ', ')'], ['e', 'e', 'IF(a, ', ', 1)'], ['e', 'e', '(', ').f(1)'],
  ['e', 'e', '(x BETWEEN 1 AND (', '))'], ['e', 'e', '(NOT ', ')'], ['e', 'e', 'INTERVAL (', ') DAY'], ['e', 'e', '1 + ', ''], ['e', 'e', '(a IN (', '))'], ['e', 'e', 'ARRAY<INT64>[', ']'], ['e', 'e', 'EXTRACT(DAY FROM ', ')'],
  ['e', 'e', 'ARRAY_AGG(x ORDER BY ', ')'], ['e', 'e', 'WITH(a AS 1, ', ')'], ['e', 'e', '(', ').b'], ['e', 'e', 'STRUCT<a INT64>(', ')'],
  ['e', 'q', '(', ')'], ['e', 'q', 'EXISTS(', ')'], ['e', 'q', 'ARRAY(', ')'], ['e', 'q', '(a IN (', '))'], ['e', 'q', '(a LIKE ANY (', '))'],
  ['q', 'e', 'SELECT ', ''], ['q', 'e', 'SELECT 1 FROM t WHERE ', ''], ['q', 'e', 'SELECT 1 FROM t GROUP BY ', ''], ['q', 'e', 'SELECT 1 FROM t ORDER BY ', ''], ['q', 'e', 'FROM t |> WHERE ', ''], ['q', 'e', 'SELECT 1 FROM UNNEST([', '])'],
  ['q', 'e', 'SELECT 1 FROM t JOIN u ON ', ''], ['q', 'e', 'SELECT 1 FROM t QUALIFY ', ''], ['q', 'e', 'FROM t |> SELECT ', ' AS z'], ['q', 'e', 'SELECT f(1) OVER w FROM t WINDOW w AS (ORDER BY ', ')'],
  ['q', 'q', '(', ')'], ['q', 'q', 'WITH a AS (', ') SELECT 1'], ['q', 'q', 'SELECT 1 UNION ALL (', ')'], ['q', 'q', '(', ') UNION ALL SELECT 1'], ['q', 'q', 'SELECT * FROM (', ')'], ['q', 'q', '(', ') |> LIMIT 1'], ['q', 'q', 'FROM t |> UNION ALL (', ')'],
  ['q', 't', 'SELECT * FROM ', ''], ['q', 't', 'FROM ', ''], ['q', 't', 'FROM ', ' |> LIMIT 1'], ['q', 't', 'SELECT * FROM a CROSS JOIN ', ''], ['q', 't', 'FROM t |> JOIN ', ' USING (a)'],
  ['t', 't', '(', ' JOIN u USING (a))'], ['t', 't', '(u CROSS JOIN ', ')'], ['t', 't', '(', ' AS a CROSS JOIN b)'], ['t', 't', '(', ', b)'], ['t', 't', 'f(TABLE ', ')'],
  ['t', 'q', '(', ')'], ['t', 'q', '(', ') AS a'], ['t', 'q', 'f((', '))'], ['t', 'e', 'UNNEST(', ')'], ['t', 'q', '(', ") PIVOT (SUM(a) FOR b IN ('x'))"],
  ['s', 's', 'BEGIN ', ' END;'], ['s', 's', 'IF a THEN ', ' END IF;'], ['s', 's', 'LOOP ', ' END LOOP;'], ['s', 's', 'CREATE PROCEDURE p() BEGIN ', ' END;'], ['s', 's', 'IF a THEN SELECT 1; ELSE ', ' END IF;'], ['s', 's', 'WHILE a DO ', ' END WHILE;'], ['s', 's', 'CASE WHEN a THEN ', ' END CASE;'],
];
const TOP = [['s', ''], ['q', ';'], ['e', ';', 'SELECT '], ['t', ';', 'SELECT * FROM '], ['q', ';', 'CREATE TABLE t AS '], ['q', ';', 'INSERT INTO t '], ['q', '', 'EXPORT DATA OPTIONS(a = 1) AS '], ['e', ';', 'SET x = '], ['e', ';', 'UPDATE t SET a = 1 WHERE '], ['q', '; END IF;', 'IF TRUE THEN '], ['t', ' ON TRUE WHEN MATCHED THEN DELETE;', 'MERGE t USING ']];
const CORE = { e: '1', q: 'SELECT 1', t: 'u', s: 'SELECT 1;' };
// a random cycle of wrappers -> family(k): the cycle applied until k wrappers are nested
function cycle(r) {
  for (;;) {
    const kind = r.weighted([[4, 'e'], [4, 'q'], [4, 't'], [1, 's']]);
    const ws = []; let need = kind;
    for (let i = 0; i < 6; i++) { const c = WRAPS.filter((w) => w[0] === need); const w = r.pick(c); ws.push(w); need = w[1]; if (need === kind) break; }
    if (need !== kind) continue;
    const top = r.pick(TOP.filter((t) => t[0] === kind));
    const name = (top[2] || '') + ws.map((w) => w[2] + '…' + w[3]).join(' / ');
    const mk = (k) => { let a = top[2] || '', b = top[1]; for (let i = 0; i < k; i++) { const w = ws[i % ws.length]; a += w[2]; b = w[3] + b; if (i === k - 1) a += CORE[w[1]]; } return [a, b]; };
    return { name, make: (k) => mk(k).join(''), parts: mk, len: ws.length };
  }
}
module.exports.WRAPS = WRAPS; module.exports.cycle = cycle;
