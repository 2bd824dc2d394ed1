'use strict';
// Directed generation. Plain random generation reaches a decision such as "trailing comma of an
// AGGREGATE list" once in tens of thousands of scripts. Here every decision of the generator is
// identified by where it is taken (enclosing generator methods, last keyword written, kind of choice)
// and how it came out; for each such target a few recorded streams of random numbers that lead to it are
// kept, and a directed case replays one of them up to the decision and goes on at random from there.
// The collection is a function of a fixed seed, so a case is still a function of the seed and its number.
const { Rng } = require('./prng.js');
const { Gen } = require('./gen/core.js');
require('./gen/expr.js'); require('./gen/query.js'); require('./gen/stmt.js');

class Recorder extends Rng { // logs the stream and reports each decision
  constructor(base) { super('x'); this.base = base; this.log = []; this.quiet = 0; this.hits = null; }
  u32() { if (!this.base) return 0; const v = this.base.u32(); this.log.push(v); return v; }
  hit(kind, out) { if (this.quiet || !this.hits) return; this.hits(kind, out, this.log.length); }
  int(n) { const x = super.int(n); if (n > 1 && n <= 24) this.hit('i' + n, x); return x; }
  bool(p = 0.5) { const x = super.bool(p); this.hit('b' + p, x); return x; }
  pick(a) { if (a.length > 12) { this.quiet++; const x = super.pick(a); this.quiet--; return x; } return super.pick(a); }
  weighted(pairs) { const x = super.weighted(pairs); const k = pairs.findIndex((p) => p[1] === x); this.hit('w' + pairs.length, k); return x; }
}
class Replay extends Rng { // a recorded prefix, then another source
  constructor(prefix, base) { super('x'); this.pre = prefix; this.i = 0; this.base = base; }
  u32() { if (!this.base) return 0; return this.i < this.pre.length ? this.pre[this.i++] : this.base.u32(); }
}
// words and literals are not targets; list helpers count for their caller; in expressions the last keyword tells little
const LEAF = new Set(['idTok', 'quotedId', 'ident', 'colIdent', 'afterDotIdent', 'number', 'int', 'stringLit', 'string', 'plainString', 'prefixedString', 'template', 'param', 'glued']);
const WRAP = new Set(['list', 'many', 'groupedExprs', 'aliased', 'ordered', 'alias', 'kwExpr']);
const EXPR = new Set('exprAt binary unary comparison bool unnestCall groupedExpr structTuple subquery atom emptyStruct typedLiteral rangeLit interval caseExpr arrayLit structLit arrayCall withExpr cast extract postfix offsetCall postBase call callOn arg path type angleGroup'.split(' '));
const PER = 3, LONG = 1500;
// wrap the generator's methods so that a stack of method names is at hand (only while collecting)
const KINDS = { stmt: [16000, (g) => g.statement()], query: [5000, (g) => g.query()], expr: [3000, (g) => g.expr()], type: [600, (g) => g.type()], table: [3000, (g) => g.table()] };
function collect(kind) {
  const [budgetScripts, make] = KINDS[kind];
  const stack = []; const saved = {};
  for (const k of Object.getOwnPropertyNames(Gen.prototype)) {
    const f = Gen.prototype[k]; if (k === 'constructor' || typeof f !== 'function' || ['tok', 'n', 'kw', 'kws', 'sym', 'p', 'pc', 'pick', 'feat', 'recase', 'seq', 'expr'].includes(k)) continue;
    saved[k] = f;
    Gen.prototype[k] = function (...a) { stack.push({ k, kw: '' }); try { return f.apply(this, a); } finally { stack.pop(); } };
  }
  const tok = saved.tok = Gen.prototype.tok; Gen.prototype.tok = function (lit, kind, extra) { if (kind === 'kw' && stack.length) stack[stack.length - 1].kw = lit; return tok.call(this, lit, kind, extra); };
  const T = new Map();
  try {
    const r = new Rng('directed:' + kind), keys = [];
    for (let c = 0; c < budgetScripts; c++) {
      // later rounds start from what was found, to get to what lies behind it
      let base = r, fuel = r.range(4, 50);
      if (c > budgetScripts / 3 && c % 2) { const e = T.get(keys[r.int(keys.length)]); const x = e[r.int(e.length)]; let pre = x.s;
        if (r.bool(0.6)) { pre = pre.slice(); pre[pre.length - 1] = r.pick([0, 0xffffffff, r.u32()]); } // the other way at that decision
        base = new Replay(pre, r); fuel = x.fuel; }
      const rec = new Recorder(base);
      const g = new Gen(rec, { fuel, noTmpl: kind !== 'stmt' });
      const found = [];
      rec.hits = (kind, out, pos) => {
        if (pos > LONG) return;
        let d = stack.length - 1; if (d < 0) return; const { k: top, kw: kw1 } = stack[d];
        if (LEAF.has(top)) return;
        for (d--; d >= 0 && WRAP.has(stack[d].k); d--);
        const from = d >= 0 ? stack[d].k : '', kw = kw1 || (d >= 0 ? stack[d].kw : '');
        const key = from + '>' + top + '|' + (EXPR.has(top) || (WRAP.has(top) && EXPR.has(from)) ? '' : kw) + '|' + kind + '=' + out;
        const e = T.get(key);
        if (!e) { T.set(key, []); found.push([key, pos]); keys.push(key); } else if (e.length < PER && r.bool(0.2)) found.push([key, pos]);
      };
      make(g);
      for (const [key, pos] of found) { const e = T.get(key); if (e.length < PER) e.push({ fuel, s: Uint32Array.from(rec.log.slice(0, pos)) }); }
    }
  } finally { for (const k of Object.keys(saved)) Gen.prototype[k] = saved[k]; }
  return [...T.entries()].filter((e) => e[1].length);
}
const tables = {};
function targets(kind = 'stmt') { return tables[kind] || (tables[kind] = collect(kind)); }
// sets up generator g to reach a target with the next thing of that kind
function direct(g, r, kind = 'stmt') {
  const t = targets(kind); const e = t[r.int(t.length)][1]; const x = e[r.int(e.length)];
  let pre = x.s;
  if (r.bool(0.25)) { pre = pre.slice(); pre[r.int(pre.length)] = r.u32(); }
  g.fuel = x.fuel; g.r = new Replay(pre, r);
}
module.exports = { direct, targets, tables };
