'use strict';
// A generative specification of the BigQuery dialect that bq2cst documents: every
// method emits source tokens in order *and* returns the syntax tree those tokens must
// be parsed to. It is written from the BigQuery reference and bq2cst's published node
// types, and shares nothing with the parser under test.
//
// token:  {lit, kind, glue, tbl}   kind: kw id qid num str op ang sym param tmpl pipe
//   glue  no trivia may stand before it     tbl  last token of a table path
// node:   {t: node_type, k: token index | null, c: {child: node | [node]}}
const RESERVED = ('ALL AND ANY ARRAY AS ASC ASSERT_ROWS_MODIFIED AT BETWEEN BY CASE CAST COLLATE CONTAINS CREATE CROSS CUBE CURRENT DEFAULT DEFINE DESC ' +
  'DISTINCT ELSE END ENUM ESCAPE EXCEPT EXCLUDE EXISTS EXTRACT FALSE FETCH FOLLOWING FOR FROM FULL GROUP GROUPING GROUPS HASH HAVING IF IGNORE IN INNER ' +
  'INTERSECT INTERVAL INTO IS JOIN LATERAL LEFT LIKE LIMIT LOOKUP MERGE NATURAL NEW NO NOT NULL NULLS OF ON OR ORDER OUTER OVER PARTITION PRECEDING PROTO ' +
  'QUALIFY RANGE RECURSIVE RESPECT RIGHT ROLLUP ROWS SELECT SET SOME STRUCT TABLESAMPLE THEN TO TREAT TRUE UNBOUNDED UNION UNNEST USING WHEN WHERE WINDOW WITH WITHIN').split(' ');
const PLAIN_IDS = ['a', 'b1', 'c', 'col', 'foo', 'bar_2', '_x', 'tbl', 'user_id', 'x1', 'Zed', 'cnt', 'ABC', 'e', 'n0', '__', 'a_b_c', 'longer_identifier_name'];
// words that mean something somewhere in the grammar but are ordinary identifiers as column names
const SOFT_IDS = ('value key name id year month day hour offset ordinal first last row status role date time timestamp datetime numeric decimal b r br rb system ' +
  'format safe begin loop repeat call replace view function procedure schema project options mode skip measures percent zone connection ' +
  'columns temp external insert update delete truncate values matched target source commit rollback return raise declare execute immediate exception ' +
  'elseif do while until iterate leave continue break language returns deterministic remote primary foreign constraint references enforced copy clone ' +
  'snapshot materialized recursive_ only data load export uri partitions overwrite assert as_ tablename pivot_ drop alter undrop grant revoke type message ' +
  'language transaction lower max min count sum aggregate extend rename index vector search policy filter access capacity').split(' ');
const FUNCS = ['f', 'my_func', 'COUNT', 'SUM', 'IF', 'LEFT', 'RIGHT', 'COALESCE', 'CONCAT', 'ANY_VALUE', 'ARRAY_AGG', 'GROUPING', 'DATE', 'TIMESTAMP', 'DATETIME', 'TIME',
  'REPLACE', 'FORMAT', 'LAST_VALUE', 'JSON', 'STRING_AGG', 'current_date', 'ROW_NUMBER', 'RANGE_BUCKET', 'sum', 'Udf_1', '_f', 'LOWER', 'EXP', 'MAX', 'MIN', 'COLLATE', 'NULLIF', 'SAFE_DIVIDE'];
const DATE_PARTS = ['YEAR', 'MONTH', 'DAY', 'HOUR', 'MINUTE', 'SECOND', 'WEEK', 'QUARTER', 'MICROSECOND', 'DAYOFWEEK'];
const SCALAR_TYPES = ['INT64', 'FLOAT64', 'STRING', 'BOOL', 'BYTES', 'DATE', 'TIMESTAMP', 'DATETIME', 'TIME', 'NUMERIC', 'BIGNUMERIC', 'JSON', 'GEOGRAPHY', 'INT', 'DECIMAL'];

class Gen {
  constructor(rng, opts = {}) {
    this.r = rng;
    this.toks = [];
    this.fuel = opts.fuel === undefined ? 60 : opts.fuel; // roughly: how many more sub-constructs may be produced
    this.noAngle = 0;      // inside <...>: comparison operators would close it
    this.feats = new Set();
    this.uniq = opts.uniq || 0;
    this.soft = opts.soft === undefined ? 0.08 : opts.soft;
    this.noTmpl = opts.noTmpl || false;
  }
  feat(s) { this.feats.add(s); }
  p(x) { return this.fuel > 0 && this.r.bool(x); }   // optional part, dries up with the fuel
  pc(x) { return this.r.bool(x); }
  pick(a) { return this.r.pick(a); }
  // ---- tokens and nodes
  tok(lit, kind, extra) { this.toks.push(Object.assign({ lit, kind }, extra)); return this.toks.length - 1; }
  n(type, lit, kind, c) { return { t: type, k: this.tok(lit, kind || 'kw'), c: c || {} }; }
  kw(lit) { return this.n('Keyword', lit, 'kw'); }
  kws(...lits) { return lits.map((l) => this.kw(l)); }
  sym(lit) { return this.n('Symbol', lit, 'sym'); }
  // KeywordSequence a -> b -> ... -> last (last is built by fn, or is a Keyword)
  seq(lits, last) {
    const nodes = lits.map((l) => this.n('KeywordSequence', l));
    let tail = typeof last === 'function' ? last() : this.kw(last);
    for (let i = nodes.length - 1; i >= 0; i--) { nodes[i].c.next_keyword = tail; tail = nodes[i]; }
    return tail;
  }
  many(lo, hi) { // hi: the usual most; now and then many more (none of these lists has an upper bound in the grammar)
    if (this.fuel <= 0) return lo;
    if (hi > 1 && this.r.bool(0.03)) return lo + (this.r.int(30) === 0 ? this.r.range(16, 150) : this.r.range(3, 9));
    let n = lo; while (n < hi && this.r.bool(0.45)) n++; return n;
  }
  some(lo, hi) { return this.r.int(40) === 0 ? this.r.range(hi + 1, 12) : this.r.range(lo, hi); }
  // comma separated list; trailing: may end in a comma
  list(lo, hi, mk, trailing) {
    const n = this.many(lo, hi), out = [];
    for (let i = 0; i < n; i++) {
      const e = mk(i);
      if (i < n - 1 || (trailing && this.p(0.06))) { e.c.comma = this.sym(','); if (trailing) this.toks[this.toks.length - 1].mayEnd = true; }
      out.push(e);
    }
    return out;
  }
  // ---- names
  idTok(noQuoted) {
    const r = this.r;
    if (!noQuoted && r.bool(0.12)) return [this.quotedId(), 'qid'];
    if (r.bool(0.1)) return ['v' + (this.uniq++), 'id'];
    if (r.bool(0.1)) { const A = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'; return [this.chars(A, 1, 4) + r.pick([...'_0123456789']) + this.chars(A + '0123456789', 0, 6), 'id']; } // (a digit or _ in it: no keyword)
    return [r.pick(PLAIN_IDS), 'id'];
  }
  quotedId() {
    const r = this.r;
    if (r.bool(0.2)) { let b = ''; for (let i = r.int(300) === 0 ? r.pick([130, 256, 1025]) : r.range(1, 6); i > 0; i--) b += r.pick(['a', 'Zq', ' ', '7', '_', "'", '"', '-', '--', '#', '/*', '*/', ';', '{{', '}}', '(', ']', '@', '%', 'é', '日', '🦀', '|>', 'SELECT', '.', ',', '$', '*']); return '`' + b + '`'; }
    return '`' + r.pick(['a', 'proj.ds.tbl', 'select', 'with space', 'da-sh', 'SELECT', '日本語', 'é', 'x--y', 'a/*b*/', 'q"uo\'te', 'a;b', '#h', 'table', '🦀', '(', '1st']) + '`';
  }
  ident(o = {}) { // Identifier node: plain or quoted, never a word the grammar looks for
    if (!o.hard && this.r.bool(this.soft * 0.3)) { // words that are not reserved are names like others
      let w = this.pick(SOFT_IDS); if (o.not && o.not.includes(w)) w = 'x';
      this.feat('soft-name'); return this.n('Identifier', this.recase(w), 'id');
    }
    const [l, k] = this.idTok(o.noQuoted);
    return this.n('Identifier', l, k);
  }
  colIdent() { // a column reference: soft keywords are fine here
    if (this.r.bool(this.soft)) { this.feat('soft-id'); return this.n('Identifier', this.recase(this.pick(SOFT_IDS)), 'id'); }
    return this.ident();
  }
  recase(s) { const x = this.r.int(4); return x === 0 ? s.toUpperCase() : x === 1 ? s[0].toUpperCase() + s.slice(1) : s; }
  afterDotIdent() { // any word at all may follow a dot
    const r = this.r;
    if (r.bool(0.12)) {
      const w = r.pick(RESERVED);
      this.feat('reserved-after-dot');
      return this.n('Identifier', this.recase(w.toLowerCase()), 'id');
    }
    return this.colIdent();
  }
  // a table path / entity name as read by the grammar's "identifier" rule
  path(o = {}) {
    const r = this.r;
    const seg = (first) => {
      const x = r.int(first ? 14 : 20);
      let node;
      if (x === 0 && !this.noTmpl) {
        node = { t: 'Identifier', k: this.tok(r.pick(['{{ ds }}', '{{x}}', '{dataset}', "{{ var('a') }}", '{{ a.b }}', '{}']), 'tmpl'), c: {} };
        this.feat('template-path');
        if (r.bool(0.4)) { node.t = 'MultiTokenIdentifier'; node.c.trailing_idents = [this.glued(r.pick(['_suffix', 'x']), 'id')]; }
      } else if (x === 1) {
        this.feat('dashed-path');
        node = { t: 'MultiTokenIdentifier', k: this.tok(r.pick(['my', 'region', 'proj']), 'id'), c: { trailing_idents: [] } };
        const tr = node.c.trailing_idents;
        for (let i = 0, m = this.some(1, 3); i < m; i++) { tr.push(this.glued('-', 'op')); tr.push(this.glued(r.pick(['proj', 'us', 'x1', 'abc', '12', 'select']), 'id')); }
      } else if (x === 2 && !first && o.table) {
        this.feat('wildcard-path');
        node = { t: 'MultiTokenIdentifier', k: this.tok('events_', 'id'), c: { trailing_idents: [this.glued('*', 'op')] } };
      } else if (!first && r.bool(0.06)) node = this.n('Identifier', r.pick(['table', 'select', 'from', 'group', 'order', 'end', 'view', 'all']), 'id');
      else node = this.ident({ not: ['row', 'values', 'function'] }); // INSERT ROW, INSERT VALUES and CREATE TABLE FUNCTION mean something else
      this.toks[this.toks.length - 1].tbl = true;
      return node;
    };
    let left = seg(true);
    const m = o.single ? 0 : r.weighted([[6, 0], [3, 1], [2, 2], [0.3, 3]]);
    for (let i = 0; i < m; i++) {
      const dot = this.n('DotOperator', '.', 'sym');
      dot.c.left = left; dot.c.right = seg(false);
      left = dot;
    }
    return left;
  }
  glued(lit, kind) { return { t: 'Identifier', k: this.tok(lit, kind, { glue: true, tbl: true }), c: {} }; }
  // ---- literals
  chars(set, lo, hi) { let s = ''; for (let i = this.r.int(300) === 0 && hi > 3 ? this.r.pick([60, 130, 255, 256, 257, 1025, 4097]) : this.r.range(lo, hi); i > 0; i--) s += set[this.r.int(set.length)]; return s; }
  number() {
    if (this.r.bool(0.25)) { // of any shape
      const D = '0123456789';
      if (this.r.bool(0.25)) return this.n('NumericLiteral', this.r.pick(['0x', '0X']) + this.chars('0123456789abcdefABCDEF', 1, 6), 'num');
      let s = this.r.bool(0.8) ? this.chars(D, 1, 5) : '';
      if (!s || this.r.bool(0.5)) s += '.' + this.chars(D, s ? 0 : 1, 4);
      if (this.r.bool(0.3)) s += this.r.pick(['e', 'E']) + this.r.pick(['', '', '+', '-']) + this.chars(D, 1, 3);
      return this.n('NumericLiteral', s, 'num');
    }
    return this.n('NumericLiteral', this.pick(['0', '1', '42', '007', '3.14', '.5', '2.', '1e10', '1E+5', '.5e-3', '2.e3', '0xFF', '0XaB1', '10', '999999999999999999999', '1.0']), 'num');
  }
  int() { return this.n('NumericLiteral', this.pick(['0', '1', '2', '10', '100', '365']), 'num'); }
  stringLit() {
    if (this.r.bool(0.2)) { // of any content
      const q = this.r.pick(["'", '"', "'''", '"""']), c = q[0], o = c === "'" ? '"' : "'";
      let b = '';
      for (let i = this.r.int(200) === 0 ? this.r.pick([130, 256, 1025, 20000]) : this.r.range(0, 6); i > 0; i--) {
        b += this.r.pick(['a', 'Zq', ' ', '7', '_', o, o + o + o, '\\\\', '\\' + c, '\\' + o, '\\n', '\\x41', '\\`', '`', '--', '#', '/*', '*/', ';', '{{', '}}', '(', ']', '@', '%', 'é', '日', '🦀', '\u3000', '|>', 'SELECT', '.', ',']);
        if (q.length === 3) b += this.r.pick(['', '', '\n', c + 'x', c + c + 'y', '\r\n', '\t']);
      }
      return q + b + q;
    }
    return this.pick(["'a'", '"b"', "''", '""', "'it\\'s'", '"q\\"q"', "'x -- y'", "'/* no */'", "'a;b'", "'''tri'ple'''", '"""multi\nline"""', "'''''''".slice(0, 6),
      "'''a\\'''b'''", "'日本'", "'\\\\'", "'👍🏽'", "'`'", "'#'", '"{{x}}"', "'%Y'", "'''\n\n'''", "'select'", "'é\u0301'", '"""\\""""', '"""a"b"c"""', "'--'", "'\\\\\\''"]);
  }
  string() { return this.n('StringLiteral', this.stringLit(), 'str'); }
  plainString() { return this.n('StringLiteral', this.pick(["'a'", '"b"', "'und:ci'", "'2020-01-01'", "'UTC'", "'''x'''"]), 'str'); }
  prefixedString() { // r'..' b"..": a prefix token with the string as operand
    const u = this.n('UnaryOperator', this.pick(['r', 'b', 'R', 'B', 'br', 'rb', 'Rb', 'BR']), 'id');
    u.c.right = { t: 'StringLiteral', k: this.tok(this.stringLit(), 'str', { glue: true }), c: {} };
    return u;
  }
  // Any expression that contains no identifier at all is also useful for LIMIT etc.
  template() { return this.n('Template', this.pick(['{{ x }}', '{{a}}', '{x}', "{{ f('}') }}", '{{{ x }}}', '{% if x %}', '{{ a\n  b }}', '{{}}']), 'tmpl'); }
  param() { return this.n('Parameter', this.pick(['@p', '@param_1', '@@error.message'.slice(0, 7), '@`q p`', '?', '@@sys']), 'param'); }
}
module.exports = { Gen, RESERVED, PLAIN_IDS, SOFT_IDS, FUNCS, DATE_PARTS, SCALAR_TYPES };
