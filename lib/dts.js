'use strict';
// Reads the type declarations that ship with the package (bq2cst.d.ts, generated from
// the tree under test) with the TypeScript compiler and tabulates, per node_type, what a
// TypeScript user is told: may token be null, which children may exist, which must, one
// node or a list, and of which node types.
const fs = require('fs');
const path = require('path');
function tsc() {
  for (const p of ['/opt/veriftools/node/node_modules/typescript', 'typescript']) { try { return require(p); } catch (e) { /* next */ } }
  throw new Error('the TypeScript compiler is not installed');
}
function table(dtsFile) {
  const ts = tsc();
  const prog = ts.createProgram([dtsFile], { lib: ['lib.es5.d.ts'], strict: true, types: [] });
  const ck = prog.getTypeChecker();
  const sf = prog.getSourceFile(dtsFile);
  const syntax = prog.getSyntacticDiagnostics(sf);
  if (syntax.length) return { broken: 'the declaration file does not parse: ' + ts.flattenDiagnosticMessageText(syntax[0].messageText, ' ') };
  const named = (name) => { let d = null; ts.forEachChild(sf, (n) => { if ((ts.isTypeAliasDeclaration(n) || ts.isInterfaceDeclaration(n)) && n.name.text === name) d = n; }); return d && ck.getTypeAtLocation(d.name); };
  const u = named('UnknownNode');
  if (!u) return { broken: 'UnknownNode is not declared' };
  const lits = (t) => (t.isUnion() ? t.types : [t]).map((x) => (x.flags & ts.TypeFlags.StringLiteral ? x.value : '*'));
  const prop = (t, n) => { const s = ck.getPropertyOfType(t, n); return s && ck.getTypeOfSymbolAtLocation(s, sf); };
  const members = u.isUnion() ? u.types : [u];
  const total = members.length;
  const out = { nodes: {}, functions: [] };
  const elem = (t) => { // node type names a type admits, null = any
    if (t.isIntersection() || t.isUnion() || t.flags & ts.TypeFlags.Object) { const p = prop(t, 'node_type'); if (p) { const l = [...new Set(lits(p))]; return l.includes('*') || l.length >= total ? null : l.sort(); } }
    return null;
  };
  for (const m of members) {
    const nt = lits(prop(m, 'node_type'));
    const tok = prop(m, 'token');
    const parts = tok.isUnion() ? tok.types : [tok];
    const rec = { nullToken: parts.some((x) => x.flags & ts.TypeFlags.Null), hasToken: parts.some((x) => x.flags & ts.TypeFlags.Object), keys: {} };
    const ch = prop(m, 'children');
    for (const s of ck.getPropertiesOfType(ch)) {
      let t = ck.getTypeOfSymbolAtLocation(s, sf);
      let optional = !!(s.flags & ts.SymbolFlags.Optional);
      const alts = (t.isUnion() ? t.types : [t]).filter((x) => { if (x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null)) { optional = true; return false; } return true; });
      const kinds = {};
      for (const a of alts) {
        const one = prop(a, 'Node'), many = prop(a, 'NodeVec');
        if (one) kinds.Node = elem(one);
        if (many) { const args = ck.getTypeArguments && many.target ? ck.getTypeArguments(many) : null; let e = null; const ix = ck.getIndexTypeOfType(many, ts.IndexKind.Number); const el = ix || (args && args[0]); if (el) e = elem(el); kinds.NodeVec = e; }
      }
      rec.keys[s.name] = { optional, kinds };
    }
    for (const n of nt) out.nodes[n] = rec;
  }
  ts.forEachChild(sf, (n) => { if (ts.isFunctionDeclaration(n)) out.functions.push(n.name.text); });
  return out;
}
module.exports = { table };
if (require.main === module) console.log(JSON.stringify(table(path.resolve(process.argv[2])), null, 1));
