'use strict';
const { Gen, FUNCS, DATE_PARTS, SCALAR_TYPES } = require('./core.js');
// Precedence levels of the BigQuery reference (smaller binds tighter).
const L = { ATOM: 100, POST: 101, UN: 102, MUL: 103, ADD: 104, SHIFT: 105, BAND: 106, BXOR: 107, BOR: 108, CMP: 109, NOT: 110, AND: 111, OR: 112 };
const OPS = { 103: ['*', '/', '||'], 104: ['+', '-'], 105: ['<<', '>>'], 106: ['&'], 107: ['^'], 108: ['|'], 111: ['AND'], 112: ['OR'] };
const CMP = ['=', '<', '>', '<=', '>=', '!=', '<>'];
const proto = {
  opNode(lit) { return this.n('BinaryOperator', lit, /[A-Z]/.test(lit) ? 'kw' : 'op'); },
  // an expression whose outermost operator binds at least as tightly as `max`
  expr(max = L.OR) {
    this.fuel--;
    const r = this.r;
    let lv;
    if (this.fuel <= 0) lv = L.ATOM;
    else {
      lv = r.weighted([[10, L.ATOM], [7, L.POST], [1.2, L.UN], [1.6, L.MUL], [1.6, L.ADD], [0.5, L.SHIFT], [0.5, L.BAND], [0.5, L.BXOR], [0.5, L.BOR], [3, L.CMP], [0.8, L.NOT], [1.2, L.AND], [0.8, L.OR]]);
      if (lv > max) lv = L.ATOM;
    }
    return this.exprAt(lv);
  },
  // an expression whose outermost construct is exactly at level lv
  exprAt(lv) {
    switch (lv) {
      case L.ATOM: return this.atom();
      case L.POST: return this.postfix();
      case L.UN: return this.unary(() => this.expr(L.UN));
      case L.NOT: { const n = this.n('UnaryOperator', 'NOT'); n.c.right = this.expr(L.NOT); this.feat('not'); return n; }
      case L.CMP: return this.comparison(() => this.expr(L.BOR), () => this.expr(L.BOR));
      default: {
        if (lv === L.SHIFT && this.noAngle) return this.atom();
        return this.binary(lv, this.pick(OPS[lv]), () => this.expr(lv), () => this.expr(lv - 1));
      }
    }
  },
  binary(lv, op, mkLeft, mkRight) {
    const left = mkLeft();
    const n = this.opNode(op);
    this.feat('op:' + op);
    n.c.left = left; n.c.right = mkRight();
    return n;
  },
  unary(mk, op) {
    const n = this.n('UnaryOperator', op || this.pick(['-', '+', '~']), 'op');
    n.c.right = mk();
    this.feat('unary');
    return n;
  },
  comparison(mkLeft, mkRight, which) {
    const r = this.r;
    const x = which !== undefined ? which : this.noAngle ? r.range(2, 7) : r.int(8);
    const left = mkLeft();
    if (x <= 1) {
      const n = this.opNode(this.pick(CMP)); n.c.left = left; n.c.right = mkRight(); this.feat('cmp'); return n;
    }
    if (x === 2) { // LIKE
      const not = this.pc(0.35) ? this.kw('NOT') : null;
      const n = this.opNode('LIKE'); n.c.left = left; if (not) n.c.not = not;
      this.feat(not ? 'not-like' : 'like');
      if (this.p(0.3)) {
        n.c.quantifier = this.kw(this.pick(['ANY', 'ALL', 'SOME']));
        this.feat('like-quantified');
        n.c.right = r.weighted([[3, () => this.structTuple(2, 3)], [2, () => this.groupedExpr(() => this.expr())], [2, () => this.unnestCall('CallingFunction')], [1, () => this.subquery()]])();
      } else n.c.right = mkRight();
      return n;
    }
    if (x === 3) { // BETWEEN
      const not = this.pc(0.35) ? this.kw('NOT') : null;
      const n = this.n('BetweenOperator', 'BETWEEN'); n.c.left = left; if (not) n.c.not = not;
      n.c.right_min = mkRight(); n.c.and = this.kw('AND'); n.c.right_max = mkRight();
      this.feat(not ? 'not-between' : 'between');
      return n;
    }
    if (x === 4 || x === 5) { // IN
      const not = this.pc(0.35) ? this.kw('NOT') : null;
      const n = this.n('InOperator', 'IN'); n.c.left = left; if (not) n.c.not = not;
      this.feat(not ? 'not-in' : 'in');
      n.c.right = r.weighted([[5, () => this.groupedExprs(() => this.expr(), { lo: 1, hi: 4, trailing: false })], [2, () => this.unnestCall('CallingUnnest')], [2, () => this.subquery()]])();
      return n;
    }
    if (x === 6) { // IS [NOT] {TRUE|FALSE|NULL|...}
      const n = this.opNode('IS'); n.c.left = left;
      if (this.pc(0.4)) n.c.not = this.kw('NOT');
      n.c.right = this.pick([() => this.n('NullLiteral', 'NULL'), () => this.bool()])();
      this.feat('is');
      return n;
    }
    const n = this.n('IsDistinctFromOperator', 'IS'); n.c.left = left;
    if (this.pc(0.4)) n.c.not = this.kw('NOT');
    n.c.distinct = this.kw('DISTINCT'); n.c.from = this.kw('FROM');
    n.c.right = mkRight();
    this.feat('is-distinct');
    return n;
  },
  bool() { return this.n('BooleanLiteral', this.pick(['TRUE', 'FALSE'])); },
  unnestCall(type) {
    const func = this.n('Identifier', 'UNNEST');
    const n = this.n(type, '(', 'sym'); n.c.func = func;
    n.c.args = [this.expr()]; n.c.rparen = this.sym(')');
    return n;
  },
  groupedExpr(mk) {
    const n = this.n('GroupedExpr', '(', 'sym');
    n.c.expr = mk(); n.c.rparen = this.sym(')');
    return n;
  },
  structTuple(lo, hi, alias) {
    const n = this.n('StructLiteral', '(', 'sym');
    n.c.exprs = this.list(lo, hi, () => this.expr()); n.c.rparen = this.sym(')');
    return n;
  },
  // ( e, e, ... )
  groupedExprs(mk, o = {}) {
    const n = this.n('GroupedExprs', '(', 'sym');
    const ex = this.list(o.lo === undefined ? 1 : o.lo, o.hi || 3, mk, o.trailing);
    if (ex.length) n.c.exprs = ex;
    n.c.rparen = this.sym(')');
    return n;
  },
  subquery() { // ( query ) where an expression is expected
    const n = this.n('GroupedStatement', '(', 'sym');
    n.c.stmt = this.query({ noParenFirst: 'set' });
    n.c.rparen = this.sym(')');
    this.feat('subquery-expr');
    return n;
  },
  atom() {
    const r = this.r;
    if (this.fuel <= 0) return r.weighted([[5, () => this.colIdent()], [2, () => this.number()], [2, () => this.string()], [1, () => this.n('NullLiteral', 'NULL')], [1, () => this.bool()], [0.5, () => this.param()]])();
    return r.weighted([
      [14, () => this.colIdent()], [6, () => this.number()], [6, () => this.string()], [1, () => this.prefixedString()],
      [1, () => this.n('NullLiteral', 'NULL')], [1, () => this.bool()], [1.5, () => this.param()], [0.4, () => (this.noTmpl ? this.number() : this.template())],
      [2, () => this.groupedExpr(() => this.expr())], [1, () => this.structTuple(2, 4)], [1.2, () => this.arrayLit()], [1.2, () => this.structLit()],
      [1, () => this.typedLiteral()], [1.2, () => this.caseExpr()], [0.8, () => this.interval()], [1.2, () => this.subquery()], [0.4, () => this.rangeLit()],
      [1.5, () => this.arrayCall()], [1.3, () => this.cast()], [1, () => this.extract()], [0.3, () => this.withExpr()], [0.3, () => this.emptyStruct()],
    ])();
  },
  emptyStruct() { const n = this.n('EmptyStruct', '(', 'sym'); n.c.rparen = this.sym(')'); return n; },
  typedLiteral() { // DATE '2020-01-01'
    const n = this.n('UnaryOperator', this.pick(['DATE', 'TIME', 'DATETIME', 'TIMESTAMP', 'NUMERIC', 'BIGNUMERIC', 'DECIMAL', 'BIGDECIMAL', 'JSON']));
    n.c.right = this.pc(0.2) ? this.prefixedString() : this.string();
    this.feat('typed-literal');
    return n;
  },
  rangeLit() {
    const type = this.n('Type', 'RANGE');
    type.c.type_declaration = this.angleGroup('GroupedType', (g) => { g.c.type = this.n('Type', this.pick(['DATE', 'DATETIME', 'TIMESTAMP'])); });
    const n = this.n('RangeLiteral', this.pick(["'[2020-01-01, 2020-12-31)'", '"[a, UNBOUNDED)"']), 'str');
    n.c.type = type; this.feat('range-literal');
    return n;
  },
  interval() {
    const n = this.n('IntervalLiteral', 'INTERVAL');
    n.c.expr = this.pick([() => this.int(), () => this.colIdentSafe(), () => this.string(), () => this.unary(() => this.int(), '-'), () => this.expr(L.ADD)])();
    n.c.date_part = this.kw(this.pick(DATE_PARTS));
    if (this.pc(0.25)) { n.c.to = this.kw('TO'); n.c.to_date_part = this.kw(this.pick(DATE_PARTS)); }
    this.feat('interval');
    return n;
  },
  colIdentSafe() { return this.ident(); },
  caseExpr() {
    const n = this.n('CaseExpr', 'CASE');
    if (this.pc(0.4)) n.c.expr = this.expr();
    n.c.arms = [];
    for (let i = 0, m = this.many(1, 3); i < m; i++) {
      const a = this.n('CaseExprArm', 'WHEN'); a.c.expr = this.expr(); a.c.then = this.kw('THEN'); a.c.result = this.expr(); n.c.arms.push(a);
    }
    if (this.pc(0.5)) { const a = this.n('CaseExprArm', 'ELSE'); a.c.result = this.expr(); n.c.arms.push(a); }
    n.c.end = this.kw('END');
    this.feat('case');
    return n;
  },
  arrayLit() {
    const typed = this.pc(0.4);
    let type = null;
    if (typed) {
      type = this.n('Type', 'ARRAY');
      if (this.pc(0.75)) type.c.type_declaration = this.angleGroup('GroupedType', (g) => { g.c.type = this.type(); });
    }
    const n = this.n('ArrayLiteral', '[', 'sym');
    n.c.exprs = this.list(this.pc(0.1) ? 0 : 1, 4, () => this.expr());
    n.c.rparen = this.sym(']');
    if (type) n.c.type = type;
    this.feat(typed ? 'typed-array' : 'array');
    return n;
  },
  structLit() {
    const type = this.n('Type', 'STRUCT');
    if (this.pc(0.5)) type.c.type_declaration = this.structFields();
    const n = this.n('StructLiteral', '(', 'sym');
    n.c.exprs = this.list(this.pc(0.1) ? 0 : 1, 3, () => this.aliased(this.expr(), 0.4));
    n.c.rparen = this.sym(')');
    n.c.type = type;
    this.feat('struct-literal');
    return n;
  },
  // [AS] alias
  aliased(e, prob = 0.3) {
    if (this.pc(prob)) {
      if (this.pc(0.7)) { e.c.as = this.kw('AS'); e.c.alias = this.colIdent(); }
      else e.c.alias = this.colIdent();
      this.feat('alias');
    }
    return e;
  },
  arrayCall() { // ARRAY(SELECT ..), EXISTS(SELECT ..)
    const func = this.n('Identifier', this.pick(['ARRAY', 'EXISTS', 'ARRAY']));
    const n = this.n('CallingFunction', '(', 'sym'); n.c.func = func;
    n.c.args = [this.query({ noParenFirst: 'set' })];
    n.c.rparen = this.sym(')');
    this.feat('query-argument');
    return n;
  },
  withExpr() { // WITH(a AS 1, b AS a, a + b)
    const func = this.n('Identifier', 'WITH');
    const n = this.n('CallingFunction', '(', 'sym'); n.c.func = func;
    n.c.args = [];
    for (let i = 0, m = this.many(1, 3); i < m; i++) {
      const e = this.ident({ noQuoted: true }); e.c.as = this.kw('AS'); e.c.alias = this.expr(); e.c.comma = this.sym(','); n.c.args.push(e);
    }
    n.c.args.push(this.expr());
    n.c.rparen = this.sym(')');
    this.feat('with-expr');
    return n;
  },
  cast() {
    const func = this.n('Identifier', this.pick(['CAST', 'SAFE_CAST']));
    const n = this.n('CallingFunction', '(', 'sym'); n.c.func = func;
    const from = this.expr();
    const as = this.n('CastArgument', 'AS'); as.c.cast_from = from; as.c.cast_to = this.type();
    if (this.pc(0.25)) { as.c.format = this.n('KeywordWithExpr', 'FORMAT'); as.c.format.c.expr = this.pc(0.7) ? this.string() : this.expr(); }
    n.c.args = [as]; n.c.rparen = this.sym(')');
    this.feat('cast');
    return n;
  },
  extract() {
    const func = this.n('Identifier', 'EXTRACT');
    const n = this.n('CallingFunction', '(', 'sym'); n.c.func = func;
    let part;
    if (this.pc(0.2)) { // WEEK(MONDAY)
      const f = this.n('Identifier', 'WEEK', 'id'); part = this.n('CallingFunction', '(', 'sym'); part.c.func = f; part.c.args = [this.n('Identifier', 'MONDAY', 'id')]; part.c.rparen = this.sym(')');
    } else part = this.n('Identifier', this.pick(DATE_PARTS), 'id');
    const a = this.n('ExtractArgument', 'FROM'); a.c.extract_datepart = part; a.c.extract_from = this.expr();
    if (this.pc(0.35)) { a.c.at_time_zone = this.kws('AT', 'TIME', 'ZONE'); a.c.time_zone = this.pc(0.6) ? this.plainString() : this.expr(); }
    n.c.args = [a]; n.c.rparen = this.sym(')');
    this.feat('extract');
    return n;
  },
  // postfix constructs: calls, field access, subscripts, chained calls
  postfix() {
    const r = this.r;
    const x = r.weighted([[6, 'call'], [4, 'dot'], [2, 'access'], [1.2, 'chain'], [1, 'nscall']]);
    if (x === 'call') return this.call();
    if (x === 'nscall') { // SAFE.f(x), ds.udf(x)
      let left = this.ident();
      for (let i = 0, m = this.some(1, 2); i < m; i++) { const d = this.n('DotOperator', '.', 'sym'); d.c.left = left; d.c.right = this.afterDotIdent(); left = d; }
      // ds.CAST(..), ds.EXTRACT(..), ds.WITH(..) are read as the built-in special forms
      const last = this.toks[this.toks.length - 1];
      if (/^(safe_cast|cast|extract|with)$/i.test(last.lit)) last.lit = 'udf';
      this.feat('qualified-call');
      return this.callOn(left);
    }
    let left = this.postBase();
    for (let i = 0, m = this.some(1, 3); i < m; i++) {
      const k = i === 0 ? x : r.weighted([[4, 'dot'], [2, 'access'], [1, 'chain']]);
      if (k === 'chain' && !this.rootIsIdent(left)) {
        const d = this.n('FunctionChain', '.', 'sym'); d.c.left = left;
        let f = this.pc(0.15) ? this.groupedExpr(() => { const e = this.ident(); const dd = this.n('DotOperator', '.', 'sym'); dd.c.left = e; dd.c.right = this.afterDotIdent(); return dd; }) : this.n('Identifier', this.pick(FUNCS), 'id');
        d.c.right = this.callOn(f);
        this.feat('function-chain');
        left = d;
      } else if (k === 'access' && left.t !== 'FunctionChain') {
        const a = this.n('AccessOperator', '[', 'sym'); a.c.left = left;
        a.c.right = this.pc(0.3) ? this.offsetCall() : this.expr();
        a.c.rparen = this.sym(']');
        this.feat('access');
        left = a;
      } else {
        const d = this.n('DotOperator', '.', 'sym'); d.c.left = left; d.c.right = this.afterDotIdent();
        this.feat('dot');
        left = d;
      }
    }
    return left;
  },
  offsetCall() { const f = this.n('Identifier', this.pick(['OFFSET', 'SAFE_OFFSET', 'ORDINAL', 'SAFE_ORDINAL']), 'id'); const n = this.n('CallingFunction', '(', 'sym'); n.c.func = f; n.c.args = [this.expr(L.ADD)]; n.c.rparen = this.sym(')'); return n; },
  rootIsIdent(n) { while (n.t === 'DotOperator') n = n.c.left; return n.t === 'Identifier'; },
  postBase() {
    return this.r.weighted([[8, () => this.colIdent()], [3, () => this.call()], [3, () => this.groupedExpr(() => this.expr())], [1, () => this.param()], [1, () => this.string()],
      [0.7, () => this.arrayLit()], [0.7, () => this.subquery()], [0.5, () => this.cast()], [0.5, () => this.structLit()], [0.4, () => this.arrayCall()]])();
  },
  call() {
    const w = this.pick(FUNCS);
    return this.callOn(this.n('Identifier', w, 'id'));
  },
  callOn(func) {
    const r = this.r;
    const n = this.n('CallingFunction', '(', 'sym'); n.c.func = func;
    const x = r.weighted([[2, 'empty'], [1.2, 'star'], [8, 'args']]);
    if (x === 'star') n.c.args = [this.n('Asterisk', '*', 'op')];
    else if (x === 'args') {
      if (this.p(0.08)) { n.c.distinct = this.kw('DISTINCT'); this.feat('distinct-arg'); }
      n.c.args = this.list(1, 4, () => this.arg());
      if (this.p(0.1)) { n.c.ignore_nulls = this.kws(this.pick(['IGNORE', 'RESPECT']), 'NULLS'); this.feat('ignore-nulls'); }
      if (this.p(0.06)) { // HAVING MAX x
        const h = this.n('KeywordSequence', 'HAVING'); h.c.next_keyword = this.n('KeywordWithExpr', this.pick(['MAX', 'MIN'])); h.c.next_keyword.c.expr = this.expr(); n.c.having = h; this.feat('having-max');
      } else {
        if (this.p(0.1)) { n.c.orderby = this.orderBy(); this.feat('agg-order'); }
        if (this.p(0.07)) { n.c.limit = this.n('KeywordWithExpr', 'LIMIT'); n.c.limit.c.expr = this.expr(L.ADD); this.feat('agg-limit'); }
      }
    }
    n.c.rparen = this.sym(')');
    if (this.p(0.15)) {
      n.c.over = this.n('OverClause', 'OVER'); n.c.over.c.window = this.window(); this.feat('over');
    }
    this.feat('call');
    return n;
  },
  arg() {
    if (this.p(0.08)) { // name => value
      const nm = this.ident({ noQuoted: true });
      const n = this.n('BinaryOperator', '=>', 'op'); n.c.left = nm; n.c.right = this.expr(); this.feat('named-arg'); return n;
    }
    if (this.p(0.05)) { // TABLE t / MODEL m
      const n = this.n('UnaryOperator', this.pick(['TABLE', 'MODEL'])); n.c.right = this.path({ table: true }); this.feat('table-arg'); return n;
    }
    return this.expr();
  },
  ordered(e) {
    if (this.pc(0.3)) e.c.order = this.kw(this.pick(['ASC', 'DESC']));
    if (this.pc(0.2)) e.c.null_order = this.kws('NULLS', this.pick(['FIRST', 'LAST']));
    return e;
  },
  byExprs(word, mk) {
    const n = this.n('XXXByExprs', word); n.c.by = this.kw('BY'); n.c.exprs = this.list(1, 3, mk);
    return n;
  },
  orderBy() { return this.byExprs('ORDER', () => this.ordered(this.expr())); },
  partitionBy() { return this.byExprs('PARTITION', () => this.expr()); },
  window() {
    if (this.pc(0.3)) return this.ident();
    const n = this.n('WindowSpecification', '(', 'sym');
    if (this.pc(0.2)) n.c.name = this.ident();
    if (this.pc(0.5)) n.c.partitionby = this.partitionBy();
    if (this.pc(0.5)) n.c.orderby = this.orderBy();
    if (this.pc(0.4)) n.c.frame = this.frame();
    n.c.rparen = this.sym(')');
    this.feat('window-spec');
    return n;
  },
  frame() {
    const f = this.n('WindowFrameClause', this.pick(['ROWS', 'RANGE']));
    const bound = (words) => {
      const x = this.r.int(3);
      if (x === 0) return [this.kw('UNBOUNDED'), this.kw(words)];
      if (x === 1) return [this.kw('CURRENT'), this.kw('ROW')];
      return [this.pc(0.7) ? this.int() : this.expr(L.ADD), this.kw(words)];
    };
    if (this.pc(0.5)) { f.c.between = this.kw('BETWEEN'); f.c.start = bound(this.pick(['PRECEDING', 'FOLLOWING'])); f.c.and = this.kw('AND'); f.c.end = bound(this.pick(['PRECEDING', 'FOLLOWING'])); } else f.c.start = bound('PRECEDING');
    this.feat('frame');
    return f;
  },
  // ---- types
  angleGroup(type, fill) {
    const g = { t: type, k: this.tok('<', 'ang'), c: {} };
    this.noAngle++;
    fill(g);
    this.noAngle--;
    g.c.rparen = { t: 'Symbol', k: this.tok('>', 'ang'), c: {} };
    this.feat('type-brackets');
    return g;
  },
  structFields(o = {}) {
    return this.angleGroup('GroupedTypeDeclarationOrConstraints', (g) => {
      g.c.declarations = this.list(1, 3, () => {
        const named = o.named || this.pc(0.6);
        const d = { t: 'TypeDeclaration', k: null, c: {} };
        if (named) { const id = this.ident(); d.k = id.k; }
        d.c.type = this.type({ schema: o.schema, noParam: !named });
        return d;
      });
    });
  },
  // schema: column attributes are allowed. noParam: no NUMERIC(10, 2)
  type(o = {}) {
    this.fuel--;
    const r = this.r;
    const x = this.fuel <= 0 ? 0 : r.int(8);
    let n;
    if (x === 5) { n = this.n('Type', 'ARRAY'); n.c.type_declaration = this.angleGroup('GroupedType', (g) => { g.c.type = this.type({ schema: o.schema }); }); }
    else if (x === 6) { n = this.n('Type', 'STRUCT'); n.c.type_declaration = this.structFields({ schema: o.schema }); }
    else if (x === 7) { n = this.n('Type', 'RANGE'); n.c.type_declaration = this.angleGroup('GroupedType', (g) => { g.c.type = this.n('Type', this.pick(['DATE', 'DATETIME', 'TIMESTAMP'])); }); }
    else {
      n = this.n('Type', this.pick(SCALAR_TYPES));
      if (!o.noParam && x === 4) { n.c.parameter = this.groupedExprs(() => this.int(), { hi: 2 }); this.feat('type-parameter'); }
    }
    if (!o.noParam && !o.plain && this.p(0.05)) { n.c.collate = this.n('KeywordWithExpr', 'COLLATE'); n.c.collate.c.expr = this.plainString(); this.feat('collate'); }
    if (o.schema && !o.noParam) {
      if (o.column && this.p(0.08)) { n.c.constraint = this.n('KeywordWithExpr', 'CONSTRAINT'); n.c.constraint.c.expr = this.path({ single: true }); }
      if (o.column && this.p(0.08)) { n.c.primarykey = this.seq(['PRIMARY'], 'KEY'); if (this.pc(0.6)) n.c.enforced = this.enforced(); this.feat('inline-pk'); }
      else if (o.column && this.p(0.08)) {
        n.c.references = this.n('KeywordWithExpr', 'REFERENCES');
        const tb = this.path();
        const call = this.n('CallingFunction', '(', 'sym'); call.c.func = tb; call.c.args = [this.ident()]; call.c.rparen = this.sym(')');
        n.c.references.c.expr = call;
        if (this.pc(0.6)) n.c.enforced = this.enforced(); this.feat('inline-fk');
      }
      if (o.column && this.p(0.12)) { n.c.default = this.n('KeywordWithExpr', 'DEFAULT'); n.c.default.c.expr = this.expr(L.CMP); this.feat('default'); }
      if (!((n.c.primarykey || n.c.references) && !n.c.enforced) && this.p(0.2)) { n.c.not_null = this.kws('NOT', 'NULL'); this.feat('not-null'); }
      if (this.p(0.12)) n.c.options = this.options();
    }
    return n;
  },
  enforced() { return this.pc(0.7) ? this.seq(['NOT'], 'ENFORCED') : this.kw('ENFORCED'); },
  options() { // OPTIONS(a = 1, ...)
    const n = this.n('KeywordWithGroupedXXX', 'OPTIONS');
    n.c.group = this.optionList();
    this.feat('options');
    return n;
  },
  optionList() {
    return this.groupedExprs(() => { const k = this.ident(); const e = this.n('BinaryOperator', '=', 'op'); e.c.left = k; e.c.right = this.expr(L.ADD); return e; }, { lo: this.pc(0.1) ? 0 : 1, hi: 3, trailing: true });
  },
};
Object.assign(Gen.prototype, proto);
module.exports = { L, OPS, CMP };
