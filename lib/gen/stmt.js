'use strict';
const { Gen, DATE_PARTS } = require('./core.js');
const { L } = require('./expr.js');
const proto = {
  semi(n) { n.c.semicolon = this.sym(';'); return n; },
  // one statement, without its semicolon
  statement(o = {}) {
    const r = this.r;
    const depth = o.depth || 0;
    const k = r.weighted([[12, 'query'], [5, 'dml'], [9, 'ddl'], [1.2, 'dcl'], [5, 'simple'], [this.fuel > 0 && depth < 4 ? 5 : 0, 'block'], [2.5, 'other']]);
    if (k === 'query') return this.query();
    if (k === 'dml') return this.dml();
    if (k === 'ddl') return this.ddl();
    if (k === 'dcl') return this.dcl();
    if (k === 'simple') return this.simple(depth);
    if (k === 'block') return this.block(depth);
    return this.other();
  },
  stmts(depth, lo = 0) { // statements of a block, each with its semicolon
    const out = [];
    for (let i = 0, m = Math.max(lo, this.many(this.pc(0.1) ? 0 : 1, 3)); i < m; i++) { this.fuel--; out.push(this.semi(this.statement({ depth: depth + 1 }))); }
    return out;
  },
  tid() { return this.path({ single: true }); },
  kwPath(word) { const n = this.n('KeywordWithExpr', word); n.c.expr = this.path(); return n; },
  ifNotExists(n) { if (this.pc(0.25)) n.c.if_not_exists = this.kws('IF', 'NOT', 'EXISTS'); },
  ifExists(n) { if (this.pc(0.25)) n.c.if_exists = this.kws('IF', 'EXISTS'); },
  orReplace(n) { if (this.pc(0.25)) n.c.or_replace = this.kws('OR', 'REPLACE'); },
  idents(lo = 1, hi = 3) { return this.list(lo, hi, () => this.ident()); },
  defaultCollate() { return this.seq(['DEFAULT'], () => { const c = this.n('KeywordWithExpr', 'COLLATE'); c.c.expr = this.plainString(); return c; }); },
  withConnection(noDefault) { return this.seq(['WITH'], () => { const c = this.n('KeywordWithExpr', 'CONNECTION'); c.c.expr = !noDefault && this.pc(0.3) ? this.kw('DEFAULT') : this.path(); return c; }); },
  withPartitionColumns() {
    const w = this.n('WithPartitionColumnsClause', 'WITH'); w.c.partition_columns = this.kws('PARTITION', 'COLUMNS');
    if (this.pc(0.6)) w.c.column_schema_group = this.columnGroup({});
    return w;
  },
  kwQuery(word, o) { const a = this.n('KeywordWithStatement', word); a.c.stmt = this.query(o); return a; },
  // ( name type, ... [, constraint] )
  columnGroup(o) {
    const g = this.n('GroupedTypeDeclarationOrConstraints', '(', 'sym');
    const ds = this.list(o.lo === undefined ? 1 : o.lo, o.hi || 3, () => {
      if (o.constraints && this.p(0.15)) return this.constraint();
      let io = null;
      if (o.inout && this.pc(0.4)) io = this.kw(this.pick(['IN', 'OUT', 'INOUT']));
      if (!io && this.pc(0.03)) { // a name that is also a word of the grammar here; only a plain type tells
        const d = { t: 'TypeDeclaration', k: this.tok(this.recase(this.pick(o.constraints ? ['constraint', 'out', 'inout'] : ['out', 'inout'])), 'id'), c: {} };
        this.feat('mode-as-name');
        d.c.type = this.n('Type', this.pick(['INT64', 'STRING', 'DATE', 'BOOL'])); return d;
      }
      const id = this.ident({ not: ['constraint'] });
      const d = { t: 'TypeDeclaration', k: id.k, c: {} };
      if (io) d.c.in_out = io;
      if (o.any && this.pc(0.2)) { d.c.type = this.n('Type', 'ANY'); d.c.type.c.type = this.kw('TYPE'); }
      else d.c.type = this.type({ schema: o.schema, column: o.constraints });
      if (o.any && this.pc(0.1)) { d.c.type.c.aggregate = this.seq(['NOT'], 'AGGREGATE'); this.feat('not-aggregate'); }
      return d;
    }, o.constraints);
    if (ds.length) g.c.declarations = ds;
    g.c.rparen = this.sym(')');
    return g;
  },
  constraint() {
    let kw = null, ine = null, id = null;
    if (this.pc(0.5)) { kw = this.kw('CONSTRAINT'); if (this.pc(0.2)) ine = this.kws('IF', 'NOT', 'EXISTS'); id = this.tid(); }
    const fk = this.pc(0.5);
    const c = this.n('Constraint', fk ? 'FOREIGN' : 'PRIMARY');
    if (kw) { c.c.constraint = kw; c.c.ident = id; if (ine) c.c.if_not_exists = ine; }
    c.c.key = this.kw('KEY');
    c.c.columns = this.groupedExprs(() => this.ident());
    if (fk) {
      c.c.references = this.n('KeywordWithExpr', 'REFERENCES');
      const tb = this.path();
      const call = this.n('CallingFunction', '(', 'sym'); call.c.func = tb; call.c.args = this.idents(); call.c.rparen = this.sym(')');
      c.c.references.c.expr = call;
    }
    if (this.pc(0.6)) c.c.enforced = this.enforced();
    this.feat(fk ? 'fk' : 'pk');
    return c;
  },
  byList(word) { return this.byExprs(word, () => (this.pc(0.6) ? this.ident() : this.expr(L.POST))); },
  // ---- DML
  assignments(hi = 3) {
    return this.list(1, hi, () => {
      let l = this.ident();
      if (this.pc(0.25)) { const d = this.n('DotOperator', '.', 'sym'); d.c.left = l; d.c.right = this.afterDotIdent(); l = d; }
      const e = this.n('BinaryOperator', '=', 'op'); e.c.left = l; e.c.right = this.pc(0.12) ? this.kw('DEFAULT') : this.expr(L.BOR); return e;
    });
  },
  value() { return this.pc(0.1) ? this.kw('DEFAULT') : this.expr(); },
  values() {
    const v = this.n('KeywordWithExprs', 'VALUES');
    v.c.exprs = this.list(1, 3, () => this.groupedExprs(() => this.value()));
    return v;
  },
  plainTable(prob = 0.4) { return this.alias(this.path({ table: true }), prob); },
  dml() {
    const r = this.r;
    switch (r.int(6)) {
      case 0: case 1: {
        const n = this.n('InsertStatement', 'INSERT');
        if (this.pc(0.7)) n.c.into = this.kw('INTO');
        n.c.target_name = this.path();
        let cols = false;
        if (this.pc(0.6)) { n.c.columns = this.groupedExprs(() => this.ident(), { hi: 4 }); cols = true; }
        n.c.input = this.pc(0.5) ? this.values() : this.query({ noParenFirst: !cols });
        this.feat('insert');
        return n;
      }
      case 2: {
        const n = this.n('DeleteStatement', 'DELETE');
        if (this.pc(0.6)) n.c.from = this.kw('FROM');
        n.c.table_name = this.alias(this.path(), 0.4);
        n.c.where = this.kwExpr('WHERE');
        this.feat('delete');
        return n;
      }
      case 3: { const n = this.n('TruncateStatement', 'TRUNCATE'); n.c.table = this.kw('TABLE'); n.c.table_name = this.path(); this.feat('truncate'); return n; }
      case 4: {
        const n = this.n('UpdateStatement', 'UPDATE');
        n.c.table_name = this.plainTable();
        n.c.set = this.n('KeywordWithExprs', 'SET'); n.c.set.c.exprs = this.assignments();
        if (this.p(0.35)) { n.c.from = this.n('KeywordWithExpr', 'FROM'); n.c.from.c.expr = this.table({ root: true }); }
        if (this.pc(0.8)) n.c.where = this.kwExpr('WHERE');
        this.feat('update');
        return n;
      }
      default: return this.merge();
    }
  },
  merge() {
    const n = this.n('MergeStatement', 'MERGE');
    if (this.pc(0.5)) n.c.into = this.kw('INTO');
    n.c.table_name = this.plainTable();
    n.c.using = this.n('KeywordWithExpr', 'USING');
    n.c.using.c.expr = this.alias(this.pc(0.5) ? this.path() : this.subquery(), 0.6);
    n.c.on = this.kwExpr('ON');
    n.c.whens = [];
    for (let i = 0, m = this.many(1, 4); i < m; i++) {
      const w = this.n('WhenClause', 'WHEN');
      if (this.pc(0.5)) w.c.not = this.kw('NOT');
      w.c.matched = this.kw('MATCHED');
      if (this.pc(0.3)) w.c.by_target_or_source = this.kws('BY', this.pick(['TARGET', 'SOURCE']));
      if (this.pc(0.3)) w.c.and = this.kwExpr('AND');
      w.c.then = this.n('KeywordWithStatement', 'THEN');
      const x = this.r.int(3);
      let s;
      if (x === 0) s = this.n('SingleTokenStatement', 'DELETE');
      else if (x === 1) { s = this.n('UpdateStatement', 'UPDATE'); s.c.set = this.n('KeywordWithExprs', 'SET'); s.c.set.c.exprs = this.assignments(); } else {
        s = this.n('InsertStatement', 'INSERT');
        if (this.pc(0.6)) s.c.columns = this.groupedExprs(() => this.ident(), { hi: 4 });
        if (this.pc(0.3)) s.c.input = this.kw('ROW');
        else { const v = this.n('KeywordWithExprs', 'VALUES'); v.c.exprs = [this.groupedExprs(() => this.value())]; s.c.input = v; }
      }
      w.c.then.c.stmt = s;
      n.c.whens.push(w);
    }
    this.feat('merge');
    return n;
  },
  // ---- DDL
  ddl() {
    const r = this.r;
    const k = r.weighted([[2, 'Schema'], [1, 'Index'], [6, 'Table'], [2.5, 'View'], [3, 'Function'], [1.5, 'Procedure'], [1, 'Rap'], [1.5, 'Model'], [1, 'Reservation'], [5, 'Alter'], [3, 'Drop']]);
    this.feat('ddl:' + k);
    return this['ddl' + k]();
  },
  ddlSchema() {
    const n = this.n('CreateSchemaStatement', 'CREATE');
    if (this.pc(0.2)) n.c.external = this.kw('EXTERNAL');
    n.c.what = this.kw('SCHEMA'); this.ifNotExists(n); n.c.ident = this.path();
    if (this.pc(0.25)) n.c.default_collate = this.defaultCollate();
    if (this.pc(0.25)) n.c.with_connection = this.withConnection();
    if (this.pc(0.4)) n.c.options = this.options();
    return n;
  },
  ddlIndex() {
    const n = this.n('CreateIndexStatement', 'CREATE');
    this.orReplace(n);
    n.c.what = this.seq([this.pick(['SEARCH', 'VECTOR'])], 'INDEX'); this.ifNotExists(n); n.c.ident = this.path();
    n.c.on = this.kw('ON'); n.c.tablename = this.path();
    if (this.pc(0.4)) { const g = this.n('GroupedExpr', '(', 'sym'); g.c.expr = this.seq(['ALL'], 'COLUMNS'); g.c.rparen = this.sym(')'); n.c.column_group = g; } else n.c.column_group = this.groupedExprs(() => this.ident());
    if (this.pc(0.3)) { n.c.storing = this.n('KeywordWithGroupedXXX', 'STORING'); n.c.storing.c.group = this.groupedExprs(() => this.ident()); }
    if (this.pc(0.3)) n.c.partitionby = this.byList('PARTITION');
    if (this.pc(0.4)) n.c.options = this.options();
    return n;
  },
  ddlTable() {
    const r = this.r;
    const n = this.n('CreateTableStatement', 'CREATE');
    this.orReplace(n);
    const kind = r.weighted([[6, 'plain'], [1.5, 'external'], [1, 'snapshot']]);
    if (kind === 'plain' && this.pc(0.25)) n.c.temp = this.kw(this.pick(['TEMP', 'TEMPORARY']));
    if (kind !== 'plain') n.c[kind] = this.kw(kind.toUpperCase());
    n.c.what = this.kw('TABLE'); this.ifNotExists(n); n.c.ident = this.path();
    if (kind === 'plain' && this.pc(0.15)) { n.c.like_or_copy = this.kw(this.pick(['LIKE', 'COPY'])); n.c.source_table = this.path(); this.feat('like-copy'); }
    if (kind !== 'snapshot' && this.pc(0.65)) n.c.column_schema_group = this.columnGroup({ schema: true, constraints: true, hi: 5 });
    if (kind === 'plain' && this.pc(0.12)) n.c.default_collate = this.defaultCollate();
    if (kind === 'plain') {
      if (this.pc(0.25)) n.c.partitionby = this.byList('PARTITION');
      if (this.pc(0.2)) n.c.clusterby = this.byList('CLUSTER');
    }
    if (kind === 'external') {
      if (this.pc(0.4)) n.c.with_connection = this.withConnection();
      if (this.pc(0.4)) n.c.with_partition_columns = this.withPartitionColumns();
    }
    let clone = false;
    if (kind === 'snapshot' || (kind === 'plain' && this.pc(0.08))) {
      n.c.clone = this.n('KeywordWithExpr', 'CLONE'); clone = true;
      const t = this.path({ table: true }); n.c.clone.c.expr = t;
      if (this.pc(0.4)) { const f = this.n('ForSystemTimeAsOfClause', 'FOR'); f.c.system_time_as_of = this.kws('SYSTEM_TIME', 'AS', 'OF'); f.c.expr = this.expr(L.ADD); t.c.for_system_time_as_of = f; }
      this.feat('clone');
    }
    if (this.pc(0.35)) n.c.options = this.options();
    if (kind === 'plain' && !clone && this.pc(0.4)) { n.c.as = this.kwQuery('AS'); this.feat('ctas'); }
    return n;
  },
  ddlView() {
    const n = this.n('CreateViewStatement', 'CREATE');
    this.orReplace(n);
    const mat = this.pc(0.35);
    if (mat) n.c.materialized = this.kw('MATERIALIZED');
    n.c.what = this.kw('VIEW'); this.ifNotExists(n); n.c.ident = this.path();
    if (!mat && this.pc(0.4)) {
      const g = this.n('GroupedIdentWithOptions', '(', 'sym');
      g.c.idents = this.list(1, 3, () => { const i = this.ident(); i.t = 'IdentWithOptions'; if (this.pc(0.4)) i.c.options = this.options(); return i; }, true);
      g.c.rparen = this.sym(')');
      n.c.column_name_list = g;
    }
    if (mat) { if (this.pc(0.4)) n.c.partitionby = this.byList('PARTITION'); if (this.pc(0.4)) n.c.clusterby = this.byList('CLUSTER'); }
    if (this.pc(0.35)) n.c.options = this.options();
    if (mat && this.pc(0.3)) n.c.as = this.seq(['AS', 'REPLICA'], () => this.kwPath('OF'));
    else n.c.as = this.kwQuery('AS');
    return n;
  },
  ddlFunction() {
    const r = this.r;
    const n = this.n('CreateFunctionStatement', 'CREATE');
    this.orReplace(n);
    const kind = r.weighted([[4, 'sql'], [2, 'js'], [1.5, 'tvf'], [1, 'remote']]);
    if (kind !== 'tvf' && this.pc(0.35)) n.c.temp = this.kw(this.pick(['TEMP', 'TEMPORARY']));
    if (kind === 'tvf') n.c.table = this.kw('TABLE');
    let agg = false;
    if (kind !== 'tvf' && kind !== 'remote' && this.pc(0.2)) { n.c.aggregate = this.kw('AGGREGATE'); agg = true; }
    n.c.what = this.kw('FUNCTION'); this.ifNotExists(n); n.c.ident = this.path();
    n.c.group = this.columnGroup({ lo: this.pc(0.25) ? 0 : 1, any: kind !== 'js' });
    if (kind === 'tvf' ? this.pc(0.4) : kind === 'sql' ? this.pc(0.5) : true) {
      n.c.returns = this.n('KeywordWithType', 'RETURNS');
      if (kind === 'tvf') { const t = this.n('Type', 'TABLE'); t.c.type_declaration = this.structFields({ named: true }); n.c.returns.c.type = t; } else n.c.returns.c.type = this.type();
    }
    if (kind === 'remote') {
      n.c.remote = this.kw('REMOTE'); n.c.connection = this.withConnection(true);
      if (this.pc(0.6)) n.c.options = this.options();
    } else if (kind === 'tvf') n.c.as = this.kwQuery('AS');
    else if (kind === 'sql') {
      const as = this.n('KeywordWithGroupedXXX', 'AS');
      as.c.group = this.groupedExpr(() => this.expr());
      n.c.as = as;
    } else {
      if (this.pc(0.3)) n.c.determinism = this.pc(0.5) ? this.kws('DETERMINISTIC') : this.kws('NOT', 'DETERMINISTIC');
      n.c.language = this.n('KeywordWithExpr', 'LANGUAGE'); n.c.language.c.expr = this.n('Identifier', this.pick(['js', 'python', 'JS']), 'id');
      if (this.pc(0.2)) n.c.connection = this.withConnection(true);
      if (this.pc(0.3)) n.c.options = this.options();
      n.c.as = this.n('KeywordWithExpr', 'AS'); n.c.as.c.expr = this.pc(0.3) ? this.prefixedString() : this.string();
    }
    return n;
  },
  ddlProcedure() {
    const n = this.n('CreateProcedureStatement', 'CREATE');
    this.orReplace(n);
    n.c.what = this.kw('PROCEDURE'); this.ifNotExists(n); n.c.ident = this.path();
    n.c.group = this.columnGroup({ lo: this.pc(0.3) ? 0 : 1, inout: true, any: false });
    const spark = this.pc(0.3);
    if (spark) {
      if (this.pc(0.3)) n.c.external = this.seq(['EXTERNAL', 'SECURITY'], this.pick(['INVOKER', 'DEFINER']));
      n.c.with_connection = this.withConnection();
    }
    if (this.pc(0.35)) n.c.options = this.options();
    if (spark) {
      n.c.language = this.n('KeywordWithExpr', 'LANGUAGE'); n.c.language.c.expr = this.n('Identifier', this.pick(['PYTHON', 'java', 'Scala']), 'id');
      if (this.pc(0.6)) { n.c.as = this.n('KeywordWithExpr', 'AS'); n.c.as.c.expr = this.string(); }
    } else { n.c.stmt = this.begin(1); }
    return n;
  },
  ddlRap() {
    const n = this.n('CreateRowAccessPolicyStatement', 'CREATE');
    this.orReplace(n);
    n.c.what = this.kws('ROW', 'ACCESS', 'POLICY'); this.ifNotExists(n); n.c.ident = this.path();
    n.c.on = this.kwPath('ON');
    if (this.pc(0.7)) { n.c.grant = this.kw('GRANT'); n.c.to = this.n('KeywordWithGroupedXXX', 'TO'); n.c.to.c.group = this.groupedExprs(() => this.string()); }
    n.c.filter = this.kw('FILTER');
    n.c.using = this.n('KeywordWithExpr', 'USING'); n.c.using.c.expr = this.groupedExpr(() => this.expr());
    return n;
  },
  ddlModel() {
    const n = this.n('CreateModelStatement', 'CREATE');
    this.orReplace(n);
    n.c.what = this.kw('MODEL'); this.ifNotExists(n); n.c.ident = this.path();
    const remote = this.pc(0.35);
    if (!remote && this.pc(0.4)) { n.c.transform = this.n('KeywordWithGroupedXXX', 'TRANSFORM'); n.c.transform.c.group = this.groupedExprs(() => (this.pc(0.1) ? this.asterisk() : this.aliased(this.expr()))); }
    if (this.pc(0.3)) { n.c.input = this.n('KeywordWithGroupedXXX', 'INPUT'); n.c.input.c.group = this.columnGroup({}); n.c.output = this.n('KeywordWithGroupedXXX', 'OUTPUT'); n.c.output.c.group = this.columnGroup({}); }
    if (remote) n.c.remote = this.seq(['REMOTE', 'WITH'], () => { const c = this.n('KeywordWithExpr', 'CONNECTION'); c.c.expr = this.pc(0.3) ? this.kw('DEFAULT') : this.path(); return c; });
    if (this.pc(0.6)) n.c.options = this.options();
    if (!remote) {
      if (this.pc(0.25)) {
        const a = this.n('KeywordWithGroupedXXX', 'AS');
        const g = this.n('TrainingDataCustomHolidayClause', '(', 'sym'); a.c.group = g;
        const cte = (w) => { const q = { t: 'WithQuery', k: this.tok(w, 'kw'), c: {} }; q.c.as = this.kw('AS'); q.c.stmt = this.groupedQuery(); return q; };
        g.c.training_data = cte('training_data'); g.c.training_data.c.comma = this.sym(','); g.c.custom_holiday = cte('custom_holiday'); g.c.rparen = this.sym(')');
        n.c.training_data_custom_holiday = a;
      } else n.c.query = this.kwQuery('AS', { noParenFirst: true });
    }
    return n;
  },
  ddlReservation() {
    const n = this.n('CreateReservationStatement', 'CREATE');
    n.c.what = this.kw(this.pick(['CAPACITY', 'RESERVATION', 'ASSIGNMENT'])); n.c.ident = this.path();
    if (this.pc(0.4)) { n.c.as = this.kw('AS'); n.c.json = this.kw('JSON'); n.c.json_string = this.string(); } else n.c.options = this.options();
    return n;
  },
  setOptions(n) { n.c.set = this.kw('SET'); n.c.options = this.options(); },
  alterColumn() {
    const n = this.n('AlterColumnStatement', 'ALTER');
    n.c.what = this.kw('COLUMN'); this.ifExists(n); n.c.ident = this.ident();
    switch (this.r.int(5)) {
      case 0: this.setOptions(n); break;
      case 1: n.c.set = this.kw('SET'); n.c.data_type = this.kws('DATA', 'TYPE'); n.c.type = this.type(); break;
      case 2: n.c.set = this.kw('SET'); n.c.default = this.kwExpr('DEFAULT'); break;
      case 3: n.c.drop_default = this.kws('DROP', 'DEFAULT'); break;
      default: n.c.drop_not_null = this.kws('DROP', 'NOT', 'NULL');
    }
    return n;
  },
  ddlAlter() {
    const r = this.r;
    const k = r.weighted([[2, 'schema'], [6, 'table'], [2, 'view'], [1, 'vector'], [0.7, 'org'], [1, 'project'], [0.7, 'bi'], [1, 'res'], [1, 'model']]);
    this.feat('alter:' + k);
    if (k === 'schema') {
      const n = this.n('AlterSchemaStatement', 'ALTER'); n.c.what = this.kw('SCHEMA'); this.ifExists(n); n.c.ident = this.path();
      const x = r.int(4);
      if (x === 0) { n.c.set = this.kw('SET'); n.c.default_collate = this.defaultCollate(); } else if (x === 1) { this.setOptions(n); } else {
        const w = x === 2 ? 'add' : 'drop';
        n.c[w] = this.seq([w.toUpperCase()], () => this.kwPath('REPLICA'));
        if (x === 2 && this.pc(0.5)) n.c.options = this.options();
      }
      return n;
    }
    if (k === 'table') {
      const n = this.n('AlterTableStatement', 'ALTER'); n.c.what = this.kw('TABLE'); this.ifExists(n); n.c.ident = this.path();
      switch (r.int(8)) {
        case 0: this.setOptions(n); break;
        case 1: n.c.set = this.kw('SET'); n.c.default_collate = this.defaultCollate(); break;
        case 2: n.c.add_columns = this.list(1, 3, () => { const a = this.n('AddColumnClause', 'ADD'); a.c.what = this.kw('COLUMN'); this.ifNotExists(a); const id = this.ident(); const d = { t: 'TypeDeclaration', k: id.k, c: {} }; d.c.type = this.type({ schema: true, column: true }); a.c.type_declaration = d; return a; }); break;
        case 3: n.c.add_constraints = this.list(1, 2, () => { const a = this.n('AddConstraintClause', 'ADD'); a.c.what = this.constraint(); return a; }); break;
        case 4: n.c.rename = this.kw('RENAME'); n.c.to = this.kwPath('TO'); break;
        case 5: n.c.rename_columns = this.list(1, 3, () => { const a = this.n('RenameColumnClause', 'RENAME'); a.c.column = this.kw('COLUMN'); if (this.pc(0.3)) a.c.if_exists = this.seq(['IF'], 'EXISTS'); a.c.ident = this.tid(); a.c.to = this.n('KeywordWithExpr', 'TO'); a.c.to.c.expr = this.tid(); return a; }); break;
        case 6: n.c.drop_columns = this.list(1, 3, () => {
          const a = this.n('AlterTableDropClause', 'DROP');
          if (this.pc(0.3)) { const pk = this.n('KeywordWithExpr', 'PRIMARY'); pk.c.expr = this.kw('KEY'); a.c.what = pk; this.ifExists(a); } else { a.c.what = this.kw(this.pick(['COLUMN', 'CONSTRAINT'])); this.ifExists(a); a.c.ident = this.tid(); }
          return a;
        }); break;
        default: n.c.alter_column_stmt = this.alterColumn();
      }
      return n;
    }
    if (k === 'view') {
      const n = this.n('AlterViewStatement', 'ALTER'); if (this.pc(0.3)) n.c.materialized = this.kw('MATERIALIZED');
      n.c.what = this.kw('VIEW'); this.ifExists(n); n.c.ident = this.path();
      if (this.pc(0.4)) n.c.alter_column_stmt = this.alterColumn(); else this.setOptions(n);
      return n;
    }
    if (k === 'vector') { const n = this.n('AlterVectorIndexStatement', 'ALTER'); n.c.what = this.seq(['VECTOR'], 'INDEX'); this.ifExists(n); n.c.ident = this.path(); n.c.on = this.kwPath('ON'); n.c.operation = this.kw('REBUILD'); return n; }
    if (k === 'org') { const n = this.n('AlterOrganizationStatement', 'ALTER'); n.c.what = this.kw('ORGANIZATION'); this.setOptions(n); return n; }
    if (k === 'project') { const n = this.n('AlterProjectStatement', 'ALTER'); n.c.what = this.kw('PROJECT'); if (this.pc(0.5)) n.c.ident = this.path(); this.setOptions(n); return n; }
    if (k === 'bi') { const n = this.n('AlterBICapacityStatement', 'ALTER'); n.c.what = this.kw('BI_CAPACITY'); n.c.ident = this.path(); this.setOptions(n); return n; }
    if (k === 'res') { const n = this.n('AlterReservationStatement', 'ALTER'); n.c.what = this.kw(this.pick(['CAPACITY', 'RESERVATION'])); n.c.ident = this.path(); this.setOptions(n); return n; }
    const n = this.n('AlterModelStatement', 'ALTER'); n.c.what = this.kw('MODEL'); this.ifExists(n); n.c.ident = this.path(); this.setOptions(n); return n;
  },
  ddlDrop() {
    const r = this.r;
    const x = r.int(10);
    if (x === 0) { const n = this.n('UndropStatement', 'UNDROP'); n.c.what = this.kw('SCHEMA'); this.ifNotExists(n); n.c.ident = this.path(); this.feat('undrop'); return n; }
    if (x === 1) {
      const n = this.n('DropRowAccessPolicyStatement', 'DROP');
      if (this.pc(0.5)) { n.c.what = this.kws('ROW', 'ACCESS', 'POLICY'); this.ifExists(n); n.c.ident = this.path(); } else n.c.what = this.kws('ALL', 'ROW', 'ACCESS', 'POLICIES');
      n.c.on = this.kwPath('ON'); this.feat('drop-rap');
      return n;
    }
    const n = this.n('DropStatement', 'DROP');
    if (x === 2) { n.c.what = this.seq(['SEARCH'], 'INDEX'); this.ifExists(n); n.c.ident = this.path(); n.c.on = this.kwPath('ON'); return n; }
    if (x === 3) { n.c.external = this.kw('EXTERNAL'); n.c.what = this.kw(this.pick(['TABLE', 'SCHEMA'])); } else if (x === 4) { n.c.materialized = this.kw('MATERIALIZED'); n.c.what = this.kw('VIEW'); } else if (x === 5) { n.c.table = this.kw('TABLE'); n.c.what = this.kw('FUNCTION'); } else n.c.what = this.kw(this.pick(['SCHEMA', 'TABLE', 'VIEW', 'FUNCTION', 'PROCEDURE', 'MODEL', 'CAPACITY', 'RESERVATION', 'ASSIGNMENT']));
    this.ifExists(n);
    n.c.ident = this.path();
    if (this.pc(0.2)) n.c.cascade_or_restrict = this.kw(this.pick(['CASCADE', 'RESTRICT']));
    return n;
  },
  // ---- DCL
  dcl() {
    const g = this.pc(0.5);
    const n = this.n(g ? 'GrantStatement' : 'RevokeStatement', g ? 'GRANT' : 'REVOKE');
    n.c.roles = this.list(1, 2, () => this.ident());
    n.c.on = this.kw('ON'); n.c.resource_type = this.kw(this.pick(['SCHEMA', 'TABLE', 'VIEW', 'PROJECT'])); n.c.ident = this.path();
    const w = g ? 'to' : 'from';
    n.c[w] = this.n('KeywordWithExprs', w.toUpperCase()); n.c[w].c.exprs = this.list(1, 3, () => this.string());
    this.feat(g ? 'grant' : 'revoke');
    return n;
  },
  // ---- scripting
  simple(depth) {
    const r = this.r;
    const k = r.weighted([[2, 'declare'], [2, 'set'], [1.5, 'execute'], [1, 'transaction'], [1, 'raise'], [0.7, 'return'], [1.5, 'call'], [1, 'break']]);
    this.feat('script:' + k);
    switch (k) {
      case 'declare': {
        const n = this.n('DeclareStatement', 'DECLARE'); n.c.idents = this.list(1, 3, () => this.ident());
        const typed = this.pc(0.75);
        if (typed) n.c.variable_type = this.type();
        if (!typed || this.pc(0.5)) n.c.default = this.kwExpr('DEFAULT');
        return n;
      }
      case 'set': {
        const n = this.n('SetStatement', 'SET');
        let l, rr;
        const x = r.int(3);
        if (x === 0) { l = this.structTuple(2, 3); } else if (x === 1) l = this.n('Parameter', this.pick(['@@time_zone', '@@dataset_id']), 'param'); else l = this.ident();
        const e = this.n('BinaryOperator', '=', 'op'); e.c.left = l; e.c.right = this.expr(L.BOR); n.c.expr = e;
        return n;
      }
      case 'execute': {
        const n = this.n('ExecuteStatement', 'EXECUTE'); n.c.immediate = this.kw('IMMEDIATE'); n.c.sql_expr = this.expr();
        if (this.pc(0.4)) { n.c.into = this.n('KeywordWithExprs', 'INTO'); n.c.into.c.exprs = this.list(1, 3, () => this.ident()); }
        if (this.pc(0.4)) { n.c.using = this.n('KeywordWithExprs', 'USING'); n.c.using.c.exprs = this.list(1, 3, () => this.aliased(this.expr())); }
        return n;
      }
      case 'transaction': { const n = this.n('TransactionStatement', this.pick(['BEGIN', 'COMMIT', 'ROLLBACK'])); const b = this.toks[n.k].lit === 'BEGIN'; if (b || this.pc(0.5)) n.c.transaction = this.kw('TRANSACTION'); return n; }
      case 'raise': { const n = this.n('RaiseStatement', 'RAISE'); if (this.pc(0.6)) { n.c.using = this.n('KeywordWithExpr', 'USING'); const m = this.n('Identifier', 'MESSAGE'); const e = this.n('BinaryOperator', '=', 'op'); e.c.left = m; e.c.right = this.expr(L.BOR); n.c.using.c.expr = e; } return n; }
      case 'return': return this.n('SingleTokenStatement', 'RETURN');
      case 'call': {
        const n = this.n('CallStatement', 'CALL');
        let f = this.ident();
        for (let i = 0, m = r.int(3); i < m; i++) { const d = this.n('DotOperator', '.', 'sym'); d.c.left = f; d.c.right = this.ident(); f = d; }
        const c = this.n('CallingFunction', '(', 'sym'); c.c.func = f;
        if (this.pc(0.8)) c.c.args = this.list(1, 3, () => this.expr());
        c.c.rparen = this.sym(')');
        n.c.procedure = c;
        return n;
      }
      default: { const n = this.n('BreakContinueStatement', this.pick(['BREAK', 'LEAVE', 'CONTINUE', 'ITERATE'])); if (this.pc(0.4)) n.c.label = this.ident({ noQuoted: true, hard: true }); return n; }
    }
  },
  kwStmts(word, depth) { const n = this.n('KeywordWithStatements', word); n.c.stmts = this.stmts(depth); return n; },
  begin(depth) {
    const n = this.n('BeginStatement', 'BEGIN');
    const s = this.stmts(depth, this.pc(0.05) ? 0 : 1);
    if (s.length) n.c.stmts = s;
    if (this.pc(0.3)) { n.c.exception_when_error = this.kws('EXCEPTION', 'WHEN', 'ERROR'); n.c.then = this.kwStmts('THEN', depth); this.feat('exception'); }
    n.c.end = this.kw('END');
    return n;
  },
  block(depth) {
    const r = this.r;
    const k = r.weighted([[2, 'begin'], [2.5, 'if'], [1, 'loop'], [1, 'repeat'], [1, 'while'], [1, 'for'], [1.5, 'case']]);
    this.feat('block:' + k);
    let label = null, colon = null;
    if (k !== 'if' && k !== 'case' && this.pc(0.2)) { label = this.ident({ noQuoted: true, hard: true }); colon = this.n('Symbol', ':', 'op'); this.feat('label'); }
    let n;
    switch (k) {
      case 'begin': n = this.begin(depth); break;
      case 'if': {
        n = this.n('IfStatement', 'IF'); n.c.condition = this.expr(); n.c.then = this.kwStmts('THEN', depth);
        const es = [];
        while (this.p(0.25)) { const e = this.n('ElseIfClause', 'ELSEIF'); e.c.condition = this.expr(); e.c.then = this.kwStmts('THEN', depth); es.push(e); }
        if (es.length) n.c.elseifs = es;
        if (this.pc(0.4)) n.c.else = this.kwStmts('ELSE', depth);
        n.c.end_if = this.kws('END', 'IF');
        break;
      }
      case 'loop': n = this.n('LoopStatement', 'LOOP'); n.c.stmts = this.stmts(depth); n.c.end_loop = this.kws('END', 'LOOP'); break;
      case 'repeat': n = this.n('RepeatStatement', 'REPEAT'); n.c.stmts = this.stmts(depth); n.c.until = this.kwExpr('UNTIL'); n.c.end_repeat = this.kws('END', 'REPEAT'); break;
      case 'while': n = this.n('WhileStatement', 'WHILE'); n.c.condition = this.expr(); n.c.do = this.kwStmts('DO', depth); n.c.end_while = this.kws('END', 'WHILE'); break;
      case 'for': { n = this.n('ForStatement', 'FOR'); n.c.ident = this.ident(); const i = this.n('KeywordWithGroupedXXX', 'IN'); i.c.group = this.groupedQuery(); n.c.in = i; n.c.do = this.kwStmts('DO', depth); n.c.end_for = this.kws('END', 'FOR'); break; }
      default: {
        n = this.n('CaseStatement', 'CASE'); if (this.pc(0.5)) n.c.expr = this.expr();
        n.c.arms = [];
        for (let i = 0, m = this.many(1, 3); i < m; i++) { const a = this.n('CaseStatementArm', 'WHEN'); a.c.expr = this.expr(); a.c.then = this.kw('THEN'); a.c.stmts = this.stmts(depth); n.c.arms.push(a); }
        if (this.pc(0.4)) { const a = this.n('CaseStatementArm', 'ELSE'); a.c.stmts = this.stmts(depth); n.c.arms.push(a); }
        n.c.end_case = this.kws('END', 'CASE');
      }
    }
    if (label) { n.c.leading_label = label; n.c.colon = colon; if (this.pc(0.5)) n.c.trailing_label = this.ident({ noQuoted: true, hard: true }); }
    return n;
  },
  // ---- others
  other() {
    const k = this.r.weighted([[1.2, 'assert'], [1.5, 'export'], [0.8, 'exportModel'], [2, 'load']]);
    this.feat('other:' + k);
    if (k === 'assert') { const n = this.n('AssertStatement', 'ASSERT'); n.c.expr = this.expr(); if (this.pc(0.5)) { n.c.as = this.kw('AS'); n.c.description = this.string(); } return n; }
    if (k === 'export') { const n = this.n('ExportDataStatement', 'EXPORT'); n.c.data = this.kw('DATA'); if (this.pc(0.3)) n.c.with_connection = this.withConnection(); n.c.options = this.options(); n.c.as = this.kwQuery('AS'); return n; }
    if (k === 'exportModel') { const n = this.n('ExportModelStatement', 'EXPORT'); n.c.what = this.kw('MODEL'); n.c.ident = this.path(); if (this.pc(0.7)) n.c.options = this.options(); return n; }
    const n = this.n('LoadStatement', 'LOAD'); n.c.data = this.kw('DATA');
    n.c.into = this.kw(this.pick(['INTO', 'OVERWRITE'])); n.c.ident = this.path();
    if (this.pc(0.3)) {
      let ow = null; if (this.pc(0.5)) ow = this.kw('OVERWRITE');
      const p = this.n('OverwritePartitionsClause', 'PARTITIONS'); if (ow) p.c.overwrite = ow;
      p.c.grouped_expr = this.groupedExpr(() => this.expr(L.ADD)); n.c.overwrite_partitions = p; this.feat('load-partitions');
    }
    if (this.pc(0.5)) n.c.column_group = this.columnGroup({});
    if (this.pc(0.3)) n.c.partitionby = this.byList('PARTITION');
    if (this.pc(0.3)) n.c.clusterby = this.byList('CLUSTER');
    if (this.pc(0.3)) n.c.options = this.options();
    n.c.from = this.kw('FROM'); n.c.files = this.kw('FILES'); n.c.from_files = this.optionList();
    if (this.pc(0.3)) n.c.with_partition_columns = this.withPartitionColumns();
    if (this.pc(0.3)) { n.c.with = this.kw('WITH'); n.c.connection = this.kw('CONNECTION'); n.c.connection_name = this.path(); }
    return n;
  },
};
Object.assign(Gen.prototype, proto);
