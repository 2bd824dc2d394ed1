'use strict';
const { Gen } = require('./core.js');
const { L } = require('./expr.js');
const proto = {
  // a query expression: [WITH ..] body [set operations] [pipe operators]
  // o.noParenFirst: may not start with `(` (in expressions: except a set operation, 'set')     o.noPipe, o.noWith
  query(o = {}) {
    this.fuel -= 2;
    const r = this.r;
    let withc = null;
    if (!o.noWith && this.p(0.12)) withc = this.withClause();
    let node;
    const form = this.fuel <= 0 ? 'select' : r.weighted([[8, 'select'], [o.noParenFirst === true && !withc ? 0 : 1.2, 'paren'], [1.5, 'from'], [1.8, 'set']]);
    if (form === 'from' ) node = this.fromQuery();
    else if (form === 'select') node = this.select({ full: true });
    else if (form === 'paren') {
      node = this.groupedQuery();
      if (this.p(0.3)) node.c.orderby = this.orderBy();
      if (this.p(0.3) || (o.noParenFirst && !withc && !node.c.orderby)) node.c.limit = this.limit();
    } else node = this.setOps(o.noParenFirst === true && !withc);
    if (!o.noPipe && form !== 'from' && this.p(0.1)) node = this.pipes(node);
    if (withc) { node.c.with = withc; this.feat('with'); }
    return node;
  },
  groupedQuery() {
    const n = this.n('GroupedStatement', '(', 'sym');
    n.c.stmt = this.query(); n.c.rparen = this.sym(')');
    this.feat('grouped-query');
    return n;
  },
  setOps(selectFirst) {
    let parenFirst = !selectFirst && this.pc(0.4);
    let left = parenFirst ? this.groupedQuery() : this.select({ full: false });
    let lastParen = parenFirst;
    for (let i = 0, m = this.many(1, 3); i < m; i++) {
      let method = null;
      if (this.pc(0.3)) {
        method = this.pick([() => this.kw('INNER'), () => this.kw('FULL'), () => this.kw('LEFT'), () => this.kw('OUTER'), () => this.seq(['FULL'], 'OUTER'), () => this.seq(['LEFT'], 'OUTER')])();
        this.feat('set-method');
      }
      const op = this.n('SetOperator', this.pick(['UNION', 'INTERSECT', 'EXCEPT']));
      if (method) op.c.method = method;
      op.c.distinct_or_all = this.kw(this.pick(['ALL', 'DISTINCT']));
      this.setModifiers(op);
      op.c.left = left;
      lastParen = this.pc(0.4);
      op.c.right = lastParen ? this.groupedQuery() : this.select({ full: false });
      left = op;
      this.feat('set-op');
    }
    if (lastParen) { // ORDER BY / LIMIT of the whole set operation
      if (this.p(0.25)) { left.c.orderby = this.orderBy(); this.feat('set-orderby'); }
      if (this.p(0.25)) left.c.limit = this.limit();
    }
    return left;
  },
  setModifiers(op) {
    const x = this.r.int(10);
    if (x === 0) op.c.by = this.seq(['BY'], 'NAME');
    else if (x === 1) op.c.by = this.seq(['BY', 'NAME'], () => { const on = this.n('KeywordWithGroupedXXX', 'ON'); on.c.group = this.groupedExprs(() => this.ident()); return on; });
    else if (x === 2) op.c.corresponding = this.corresponding();
    else if (x === 3) { const s = this.n('KeywordSequence', 'STRICT'); s.c.next_keyword = this.corresponding(); op.c.corresponding = s; }
    if (x < 4) this.feat('set-modifier');
  },
  corresponding() {
    if (this.pc(0.5)) return this.kw('CORRESPONDING');
    const c = this.n('KeywordSequence', 'CORRESPONDING');
    const by = this.n('KeywordWithGroupedXXX', 'BY'); by.c.group = this.groupedExprs(() => this.ident());
    c.c.next_keyword = by;
    return c;
  },
  withClause(pipe) {
    const w = this.n(pipe ? 'WithPipeOperator' : 'WithClause', 'WITH');
    if (this.pc(0.2)) { w.c.recursive = this.kw('RECURSIVE'); this.feat('recursive'); }
    w.c.queries = this.list(1, 3, () => {
      const id = this.ident();
      const q = { t: 'WithQuery', k: id.k, c: {} };
      q.c.as = this.kw('AS');
      q.c.stmt = this.groupedQuery();
      return q;
    }, true);
    return w;
  },
  limit() {
    const l = this.n('LimitClause', 'LIMIT');
    l.c.expr = this.pc(0.7) ? this.int() : this.expr(L.ADD);
    if (this.pc(0.4)) { l.c.offset = this.n('KeywordWithExpr', 'OFFSET'); l.c.offset.c.expr = this.pc(0.7) ? this.int() : this.expr(L.ADD); this.feat('offset'); }
    this.feat('limit');
    return l;
  },
  kwExpr(word, mk) { const n = this.n('KeywordWithExpr', word); n.c.expr = (mk || (() => this.expr()))(); return n; },
  asterisk() {
    const n = this.n('Asterisk', '*', 'op');
    if (this.pc(0.3)) { n.c.except = this.n('KeywordWithGroupedXXX', 'EXCEPT'); n.c.except.c.group = this.groupedExprs(() => this.ident()); this.feat('star-except'); }
    if (this.pc(0.25)) { n.c.replace = this.n('KeywordWithGroupedXXX', 'REPLACE'); n.c.replace.c.group = this.groupedExprs(() => { const e = this.expr(); e.c.as = this.kw('AS'); e.c.alias = this.ident(); return e; }); this.feat('star-replace'); }
    return n;
  },
  selectItem() {
    const x = this.r.int(14);
    if (x === 0) return this.asterisk();
    if (x === 1) {
      let left = this.colIdent();
      if (this.pc(0.2)) { const d = this.n('DotOperator', '.', 'sym'); d.c.left = left; d.c.right = this.afterDotIdent(); left = d; }
      const d = this.n('DotOperator', '.', 'sym'); d.c.left = left; d.c.right = this.asterisk(); this.feat('dot-star');
      return d;
    }
    return this.aliased(this.expr());
  },
  // full: ORDER BY / LIMIT may be part of it
  select(o = {}) {
    this.fuel--;
    const n = this.n('SelectStatement', 'SELECT');
    if (this.p(0.04)) {
      const w = this.n('DifferentialPrivacyClause', 'WITH'); w.c.differential_privacy = this.kw('DIFFERENTIAL_PRIVACY');
      if (this.pc(0.7)) w.c.options = this.options();
      n.c.differential_privacy = w; this.feat('differential-privacy');
    }
    if (this.p(0.12)) { n.c.distinct_or_all = this.kw(this.pick(['DISTINCT', 'ALL'])); this.feat('distinct'); }
    if (this.p(0.06)) { n.c.as_struct_or_value = this.kws('AS', this.pick(['STRUCT', 'VALUE'])); this.feat('as-struct'); }
    const at = this.toks.length;
    n.c.exprs = this.list(1, 4, () => this.selectItem(), true);
    if (n.c.differential_privacy && /^options$/i.test(this.toks[at].lit)) this.toks[at].lit = 'opt';
    const from = this.p(0.65);
    if (from) { n.c.from = this.n('KeywordWithExpr', 'FROM'); n.c.from.c.expr = this.table({ root: true }); }
    if (from || this.p(0.1)) { // the clauses are independent of one another
      if (this.p(0.3)) { n.c.where = this.kwExpr('WHERE'); this.feat('where'); }
      if (this.p(0.2)) n.c.groupby = this.groupBy();
      if (this.p(0.12)) { n.c.having = this.kwExpr('HAVING'); this.feat('having'); }
      if (this.p(0.1)) { n.c.qualify = this.kwExpr('QUALIFY'); this.feat('qualify'); }
      if (this.p(0.08)) n.c.window = this.windowClause();
    }
    if (o.full) {
      if (this.p(0.2)) { n.c.orderby = this.orderBy(); this.feat('orderby'); }
      if (this.p(0.18)) n.c.limit = this.limit();
    }
    this.feat('select');
    return n;
  },
  groupBy(pipe) {
    const g = this.n('GroupByExprs', 'GROUP'); g.c.by = this.kw('BY');
    const x = this.r.int(8);
    const mk = () => { const e = this.expr(); return pipe ? this.ordered(this.aliased(e, 0.2)) : e; };
    if (x === 0) { g.c.how = this.kws('ALL'); this.feat('group-all'); }
    else if (x === 1) { g.c.how = this.kws(this.pick(['ROLLUP', 'CUBE'])); g.c.exprs = [this.pc(0.5) ? this.groupedExpr(() => this.expr()) : this.structTuple(2, 3)]; this.feat('rollup'); }
    else if (x === 2) {
      g.c.how = this.kws('GROUPING', 'SETS');
      const s = this.n('StructLiteral', '(', 'sym');
      s.c.exprs = this.list(2, 3, () => this.pick([() => this.ident(), () => this.groupedExpr(() => this.ident()), () => this.structTuple(2, 2), () => this.emptyStruct(), () => { const f = this.n('Identifier', this.pick(['ROLLUP', 'CUBE'])); const c = this.n('CallingFunction', '(', 'sym'); c.c.func = f; c.c.args = this.list(1, 2, () => this.ident()); c.c.rparen = this.sym(')'); return c; }])());
      s.c.rparen = this.sym(')');
      g.c.exprs = [s]; this.feat('grouping-sets');
    } else { const at = this.toks.length; g.c.exprs = this.list(1, 3, mk); if (/^grouping$/i.test(this.toks[at].lit)) this.toks[at].lit = 'f'; } // GROUPING(..) is not valid there and starts GROUPING SETS
    this.feat('groupby');
    return g;
  },
  windowClause() {
    const w = this.n('WindowClause', 'WINDOW');
    w.c.window_exprs = this.list(1, 2, () => { const id = this.ident(); const e = { t: 'WindowExpr', k: id.k, c: {} }; e.c.as = this.kw('AS'); e.c.window = this.window(); return e; });
    this.feat('window-clause');
    return w;
  },
  // ---- tables
  alias(n, prob = 0.35) {
    if (this.pc(prob)) { if (this.pc(0.6)) n.c.as = this.kw('AS'); n.c.alias = this.ident(); this.feat('table-alias'); }
    return n;
  },
  tvf() {
    const p = this.path();
    const n = this.n('CallingTableFunction', '(', 'sym'); n.c.func = p;
    if (this.pc(0.85)) n.c.args = this.list(1, 3, () => this.arg());
    n.c.rparen = this.sym(')');
    this.feat('tvf');
    return n;
  },
  table(o = {}) {
    this.fuel--;
    const r = this.r;
    let n;
    const x = this.fuel <= 0 ? 'path' : r.weighted([[8, 'path'], [2, 'query'], [1.5, 'unnest'], [1, 'tvf'], [0.9, 'paren']]);
    if (x === 'path') n = this.path({ table: true });
    else if (x === 'query') n = this.tableQuery();
    else if (x === 'unnest') { n = this.unnestCall('CallingUnnest'); this.feat('unnest'); }
    else if (x === 'tvf') n = this.tvf();
    else { // ( join )
      n = this.n('GroupedExpr', '(', 'sym');
      const inner = this.table({ root: true, mustJoin: true });
      n.c.expr = inner; n.c.rparen = this.sym(')');
      this.feat('grouped-join');
    }
    // the JoinOperator of `(a JOIN b)` is the child, suffixes below attach to this operand
    if (x !== 'paren') this.alias(n);
    if (x === 'path' && this.p(0.06)) {
      const f = this.n('ForSystemTimeAsOfClause', 'FOR'); f.c.system_time_as_of = this.kws('SYSTEM_TIME', 'AS', 'OF'); f.c.expr = this.expr(L.ADD);
      n.c.for_system_time_as_of = f; this.feat('system-time');
    }
    if (x === 'unnest' && this.pc(0.4)) {
      const w = this.n('WithOffsetClause', 'WITH'); w.c.offset = this.kw('OFFSET');
      if (this.pc(0.6)) { if (this.pc(0.6)) w.c.as = this.kw('AS'); w.c.alias = this.ident(); }
      n.c.with_offset = w; this.feat('with-offset');
    }
    if (x !== 'unnest' && x !== 'paren') {
      const y = this.p(0.16) ? r.int(3) : 9;
      if (y === 0) { const p = this.n('PivotOperator', 'PIVOT'); p.c.config = this.pivotConfig(); this.alias(p); n.c.pivot = p; this.feat('pivot'); }
      if (y === 1) {
        const u = this.n('UnpivotOperator', 'UNPIVOT');
        if (this.pc(0.4)) u.c.include_or_exclude_nulls = this.kws(this.pick(['INCLUDE', 'EXCLUDE']), 'NULLS');
        u.c.config = this.unpivotConfig(); this.alias(u); n.c.unpivot = u; this.feat('unpivot');
      }
      if (y === 2) n.c.match_recognize = this.matchRecognize('MatchRecognizeClause');
      if (x === 'path' && this.p(0.05)) { const s = this.n('TableSampleClause', 'TABLESAMPLE'); s.c.system = this.kw('SYSTEM'); s.c.group = this.sampleRatio(); n.c.tablesample = s; this.feat('tablesample'); }
    }
    if (o.root) {
      let m = this.many(o.mustJoin ? 1 : 0, 3);
      for (let i = 0; i < m; i++) n = this.join(n);
    }
    return n;
  },
  tableQuery() {
    const n = this.n('GroupedStatement', '(', 'sym');
    n.c.stmt = this.query(); n.c.rparen = this.sym(')');
    this.feat('table-subquery');
    return n;
  },
  join(left) {
    const r = this.r;
    let type = null, outer = null, comma = false, x = r.int(6);
    if (x === 0) comma = true;
    else if (x === 1) type = this.kw('CROSS');
    else if (x === 2) type = this.kw('INNER');
    else if (x <= 4) { type = this.kw(this.pick(['LEFT', 'RIGHT', 'FULL'])); if (this.pc(0.4)) outer = this.kw('OUTER'); }
    const j = this.n('JoinOperator', comma ? ',' : 'JOIN', comma ? 'sym' : 'kw');
    if (type) j.c.join_type = type;
    if (outer) j.c.outer = outer;
    j.c.left = left;
    j.c.right = this.table({ root: false });
    if (!comma && x !== 1) this.joinCondition(j);
    this.feat(comma ? 'comma-join' : 'join');
    return j;
  },
  joinCondition(j) {
    const x = this.r.int(5);
    if (x <= 2) { j.c.on = this.kwExpr('ON'); this.feat('join-on'); }
    else if (x === 3) {
      const f = this.n('Identifier', 'USING');
      const c = this.n('CallingFunction', '(', 'sym'); c.c.func = f; c.c.args = this.list(1, 3, () => this.ident()); c.c.rparen = this.sym(')');
      j.c.using = c; this.feat('join-using');
    }
  },
  sampleRatio() {
    const g = this.n('TableSampleRatio', '(', 'sym'); g.c.expr = this.pc(0.7) ? this.int() : this.param(); g.c.percent = this.kw('PERCENT'); g.c.rparen = this.sym(')'); return g;
  },
  pivotConfig() {
    const c = this.n('PivotConfig', '(', 'sym');
    c.c.exprs = this.list(1, 2, () => this.aliased(this.call(), 0.4));
    const f = this.n('KeywordWithExpr', 'FOR'); f.c.expr = this.ident(); c.c.for = f;
    const i = this.n('KeywordWithGroupedXXX', 'IN'); i.c.group = this.groupedExprs(() => this.aliased(this.expr(L.ADD), 0.3)); c.c.in = i;
    c.c.rparen = this.sym(')');
    return c;
  },
  unpivotConfig() {
    const c = this.n('UnpivotConfig', '(', 'sym');
    const multi = this.pc(0.4);
    c.c.expr = multi ? this.groupedExprs(() => this.ident(), { lo: 2, hi: 3 }) : this.ident();
    const f = this.n('KeywordWithExpr', 'FOR'); f.c.expr = this.ident(); c.c.for = f;
    const i = this.n('KeywordWithGroupedXXX', 'IN');
    i.c.group = this.groupedExprs(() => {
      const e = multi ? this.groupedExprs(() => this.ident(), { lo: 2, hi: 3 }) : this.ident({ hard: true }); // `date 'x'` would be a literal
      if (this.pc(0.4)) { if (this.pc(0.7)) e.c.as = this.kw('AS'); e.c.row_value_alias = this.pc(0.5) ? this.plainString() : this.int(); }
      return e;
    });
    c.c.in = i; c.c.rparen = this.sym(')');
    return c;
  },
  matchRecognize(type) {
    const m = this.n(type, 'MATCH_RECOGNIZE');
    const c = this.n('MatchRecognizeConfig', '(', 'sym'); m.c.config = c;
    if (this.pc(0.5)) c.c.partitionby = this.partitionBy();
    if (this.pc(0.7)) c.c.orderby = this.orderBy();
    if (this.pc(0.8)) { c.c.measures = this.n('KeywordWithExprs', 'MEASURES'); c.c.measures.c.exprs = this.list(1, 2, () => { const e = this.expr(); e.c.as = this.kw('AS'); e.c.alias = this.ident(); return e; }); }
    if (this.pc(0.5)) {
      const words = this.pick([['AFTER', 'MATCH', 'SKIP', 'PAST', 'LAST', 'ROW'], ['AFTER', 'MATCH', 'SKIP', 'TO', 'NEXT', 'ROW']]);
      c.c.skip_rule = this.seq(words.slice(0, 5), () => this.n('KeywordSequence', 'ROW'));
    }
    c.c.pattern = this.n('PatternClause', 'PATTERN'); c.c.pattern.c.pattern = this.groupedPattern(0);
    if (this.pc(0.8)) { c.c.define = this.n('KeywordWithExprs', 'DEFINE'); c.c.define.c.exprs = this.list(1, 2, () => { const e = this.ident(); e.c.as = this.kw('AS'); e.c.alias = this.expr(); return e; }); }
    if (this.pc(0.3)) c.c.options = this.options();
    c.c.rparen = this.sym(')');
    this.alias(m);
    this.feat('match-recognize');
    return m;
  },
  groupedPattern(d) {
    const g = this.n('GroupedPattern', '(', 'sym');
    let ps = this.patternRun(d, d === 0 && this.pc(0.2));
    while (this.pc(0.3)) {
      const or = this.n('OrPattern', '|', 'op');
      or.c.left = ps; or.c.right = this.patternRun(d);
      ps = [or];
      this.feat('or-pattern');
    }
    g.c.patterns = ps;
    g.c.rparen = this.sym(')');
    this.suffixes(g);
    return g;
  },
  patternRun(d, anchors) {
    const out = [];
    if (anchors) { const p = this.n('Pattern', '^', 'op'); p.c.suffixes = []; out.push(p); }
    for (let i = 0, m = this.some(1, 3); i < m; i++) {
      if (d < 2 && this.pc(0.2)) out.push(this.groupedPattern(d + 1));
      else { const p = this.ident({ noQuoted: true }); p.t = 'Pattern'; this.suffixes(p); out.push(p); }
    }
    if (anchors && this.pc(0.5)) { const p = this.n('Pattern', '$', 'op'); p.c.suffixes = []; out.push(p); }
    return out;
  },
  suffixes(p) {
    const x = this.r.int(8), s = [];
    const sy = (l) => this.n('Symbol', l, 'op');
    if (x === 0) s.push(sy('*')); else if (x === 1) s.push(sy('+')); else if (x === 2) s.push(sy('?'));
    else if (x === 3) { s.push(sy(this.pick(['*', '+', '?']))); s.push(sy('?')); } else if (x === 4) {
      const q = this.n('PatternQuantifier', '{', 'op');
      const y = this.r.int(4);
      const num = (g) => ({ t: 'NumericLiteral', k: this.tok(this.pick(['1', '2', '10']), 'num', { glue: g }), c: {} });
      if (y !== 2) q.c.min = num(true);
      if (y !== 3) { q.c.comma = { t: 'Symbol', k: this.tok(',', 'sym', { glue: y === 2 }), c: {} }; if (y !== 1) q.c.max = num(false); }
      q.c.rbrace = this.n('Symbol', '}', 'op');
      s.push(q); this.feat('quantifier');
      if (this.pc(0.4)) s.push(sy('?'));
    }
    p.c.suffixes = s;
  },
  // ---- pipe syntax
  fromQuery() {
    const f = this.n('FromStatement', 'FROM');
    f.c.expr = this.table({ root: true });
    this.feat('from-first');
    return this.p(0.75) ? this.pipes(f) : f;
  },
  pipes(left) {
    for (let i = 0, m = this.many(1, 4); i < m; i++) {
      const more = i < m - 1;
      const p = this.n('PipeStatement', '|>', 'pipe');
      p.c.left = left;
      p.c.right = this.pipeOp(more);
      left = p;
    }
    this.feat('pipe');
    return left;
  },
  pipeOp(more) {
    const r = this.r;
    const base = (w, mk, hi = 3, tr = true) => { const n = this.n('BasePipeOperator', w); n.c.exprs = this.list(1, hi, mk, tr); return n; };
    const x = r.int(18);
    this.feat('pipe-op:' + x);
    switch (x) {
      case 0: return base('WHERE', () => this.expr(), 1, false);
      case 1: return base('EXTEND', () => this.aliased(this.expr()));
      case 2: return base('SET', () => { const k = this.ident(); const e = this.n('BinaryOperator', '=', 'op'); e.c.left = k; e.c.right = this.expr(L.ADD); return e; });
      case 3: return base('DROP', () => this.ident());
      case 4: return base('RENAME', () => { const e = this.ident(); if (this.pc(0.7)) e.c.as = this.kw('AS'); e.c.alias = this.ident(); return e; });
      case 5: return base('AS', () => this.ident(), 1, false);
      case 6: return base('CALL', () => this.aliased(this.call()), 1, false);
      case 7: { const n = this.n('BasePipeOperator', 'ORDER'); n.c.keywords = this.kw('BY'); n.c.exprs = this.list(1, 3, () => this.ordered(this.expr()), true); return n; }
      case 8: case 9: {
        const n = this.n('SelectPipeOperator', 'SELECT');
        const d = this.pc(0.2), a = this.pc(0.15);
        if (d || a) {
          const words = (d ? [this.pick(['DISTINCT', 'ALL'])] : []).concat(a ? ['AS', this.pick(['STRUCT', 'VALUE'])] : []);
          n.c.keywords = this.seq(words.slice(0, -1), words[words.length - 1]);
        }
        n.c.exprs = this.list(1, 3, () => this.selectItem(), true);
        if (this.pc(0.15)) n.c.window = this.windowClause();
        return n;
      }
      case 10: { const n = this.n('LimitPipeOperator', 'LIMIT'); n.c.exprs = [this.int()]; if (this.pc(0.4)) n.c.offset = this.kwExpr('OFFSET', () => this.int()); return n; }
      case 11: case 12: { const n = this.n('AggregatePipeOperator', 'AGGREGATE'); n.c.exprs = this.list(1, 3, () => this.ordered(this.aliased(this.call())), true); if (this.pc(0.6)) n.c.groupby = this.groupBy(true); return n; }
      case 13: {
        let method = null;
        if (this.pc(0.3)) method = this.pick([() => this.kw('INNER'), () => this.kw('FULL'), () => this.kw('LEFT'), () => this.kw('OUTER'), () => this.seq(['FULL'], 'OUTER'), () => this.seq(['LEFT'], 'OUTER')])();
        const n = this.n('UnionPipeOperator', this.pick(['UNION', 'INTERSECT', 'EXCEPT']));
        if (method) n.c.method = method;
        n.c.keywords = this.kw(this.pick(['ALL', 'DISTINCT']));
        this.setModifiers(n);
        n.c.exprs = this.list(1, 2, () => this.subquery());
        return n;
      }
      case 14: {
        let method = null;
        const y = r.int(5);
        if (y === 0) method = this.kw('CROSS'); else if (y === 1) method = this.kw('INNER');
        else if (y <= 3) { const w = this.pick(['LEFT', 'RIGHT', 'FULL']); method = this.pc(0.4) ? this.seq([w], 'OUTER') : this.kw(w); }
        const n = this.n('JoinPipeOperator', 'JOIN');
        if (method) n.c.method = method;
        n.c.exprs = [this.table({ root: false })];
        if (y !== 0) this.joinCondition(n);
        return n;
      }
      case 15: {
        const y = r.int(3);
        if (y === 0) { const n = this.n('TableSamplePipeOperator', 'TABLESAMPLE'); n.c.keywords = this.kw('SYSTEM'); n.c.group = this.sampleRatio(); return n; }
        if (y === 1) { const n = this.n('PivotPipeOperator', 'PIVOT'); n.c.config = this.pivotConfig(); return this.alias(n); }
        const n = this.n('UnpivotPipeOperator', 'UNPIVOT');
        if (this.pc(0.4)) n.c.keywords = this.seq([this.pick(['INCLUDE', 'EXCLUDE'])], 'NULLS');
        n.c.config = this.unpivotConfig();
        return this.alias(n);
      }
      case 16: if (more) return this.withClause(true); return this.n('Keyword', 'DISTINCT');
      default: return this.pc(0.4) ? this.matchRecognize('MatchRecognizePipeOperator') : this.n('Keyword', 'DISTINCT');
    }
  },
};
Object.assign(Gen.prototype, proto);
