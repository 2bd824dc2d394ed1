'use strict';
// Self-test of the framework (not a check): lists small syntactic changes to the crate.
//   mutants(repoDir) -> [{id, file, line, from, to, op}]
const fs = require('fs'); const path = require('path');
function mutants(repo, files = ['parser.rs', 'lexer.rs', 'token.rs', 'cst.rs', 'error.rs', 'lib.rs', 'constants.rs']) {
  const out = [];
  for (const f of files) {
    const src = fs.readFileSync(path.join(repo, 'src', f), 'utf8').split('\n');
    const add = (n, to, op) => { if (to !== src[n]) out.push({ id: `${f}:${n + 1}:${op}:${out.length}`, file: f, line: n, from: src[n], to, op }); };
    src.forEach((l, n) => {
      if (/^\s*\/\//.test(l) || /#\[/.test(l)) return;
      const c = l.replace(/\/\/.*$/, '');
      // one-line statements dropped
      if (/^\s*(self\.next_token\(\)\?;|\w+\.push_node(_vec)?\(.*\);|self\.next_char\(\)\?;|\w+(\.\w+)? (\+|-)= 1;|\w+(\.\w+)? = .*;)\s*$/.test(c)) add(n, '', 'drop');
      // conditions
      let m;
      if ((m = /^(\s*(?:\} else )?if )(?!let )(.*)( \{)\s*$/.exec(c))) { add(n, `${m[1]}!(${m[2]})${m[3]}`, 'neg'); add(n, `${m[1]}false && (${m[2]})${m[3]}`, 'never'); add(n, `${m[1]}true || (${m[2]})${m[3]}`, 'always'); }
      if ((m = /^(\s*while )(?!let )(.*)( \{)\s*$/.exec(c))) add(n, `${m[1]}false && (${m[2]})${m[3]}`, 'never');
      if (/^\s*&& /.test(c)) { add(n, l.replace('&&', '||'), 'or'); add(n, '', 'dropcond'); }
      if (/^\s*\|\| /.test(c)) { add(n, l.replace('||', '&&'), 'and'); add(n, '', 'dropcond'); }
      for (const x of c.matchAll(/ && /g)) add(n, l.slice(0, x.index) + ' || ' + l.slice(x.index + 4), 'or');
      for (const x of c.matchAll(/ \|\| /g)) add(n, l.slice(0, x.index) + ' && ' + l.slice(x.index + 4), 'and');
      // string literals
      for (const x of c.matchAll(/"([^"\\]*)"/g)) { if (x[1] && !/ /.test(x[1])) add(n, l.slice(0, x.index) + '"' + x[1] + 'zz"' + l.slice(x.index + x[0].length), 'str'); }
      for (const x of c.matchAll(/"([^"\\]*)" \| /g)) add(n, l.slice(0, x.index) + l.slice(x.index + x[0].length), 'alt');
      // booleans, numbers, comparison
      for (const x of c.matchAll(/\b(true|false)\b/g)) add(n, l.slice(0, x.index) + (x[1] === 'true' ? 'false' : 'true') + l.slice(x.index + x[0].length), 'bool');
      for (const x of c.matchAll(/(?<![\w."])(\d+)(?![\w."])/g)) { add(n, l.slice(0, x.index) + (+x[1] + 1) + l.slice(x.index + x[0].length), 'inc'); if (+x[1] > 0) add(n, l.slice(0, x.index) + (+x[1] - 1) + l.slice(x.index + x[0].length), 'dec'); }
      for (const x of c.matchAll(/ (==|!=|<=|>=|<|>) /g)) { const t = { '==': '!=', '!=': '==', '<': '<=', '<=': '<', '>': '>=', '>=': '>' }[x[1]]; add(n, l.slice(0, x.index) + ' ' + t + ' ' + l.slice(x.index + x[0].length), 'cmp'); }
      for (const x of c.matchAll(/!(?=self|\w+\.|\()/g)) add(n, l.slice(0, x.index) + l.slice(x.index + 1), 'unneg');
      // node types
      for (const x of c.matchAll(/NodeType::(Keyword|Symbol|Unknown|Identifier|KeywordSequence|KeywordWithExpr|KeywordWithExprs)\b/g)) add(n, l.slice(0, x.index) + 'NodeType::' + (x[1] === 'Keyword' ? 'KeywordSequence' : 'Keyword') + l.slice(x.index + x[0].length), 'type');
      for (const x of c.matchAll(/'(.|\\.)'/g)) add(n, l.slice(0, x.index) + "'\\u{1}'" + l.slice(x.index + x[0].length), 'char');
    });
  }
  return out;
}
module.exports = { mutants };
if (require.main === module) { const m = mutants(process.argv[2] || '/repo'); const by = {}; for (const x of m) by[x.op] = (by[x.op] || 0) + 1; console.log(m.length, by); }
