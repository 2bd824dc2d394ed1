'use strict';
// Helpers for relations between two runs (same script laid out / spelled / embedded differently).
const { canon } = require('./tree.js');
const { reflex } = require('./reflex.js');
const EOFN = 4294967295;
// index of the non-comment token an error points at; 'eof'; 'lex@end' style for lexical errors; -1 if it points nowhere
function errIndex(err, toks) {
  if (err.line === EOFN && err.column === EOFN) return 'eof';
  let k = 0;
  for (const t of toks) { if (t.comment) { if (t.line === err.line && t.column === err.column) return 'comment'; continue; } if (t.line === err.line && t.column === err.column) return k; k++; }
  return -1;
}
const scrubMsg = (m) => m.replace(/line: \d+, column: \d+/g, 'line: _, column: _');
const codeToks = (toks) => toks.filter((t) => !t.comment);
// one line that stands for everything about a result except positions, comments and (opt) letter case
function abstract(res, toks, o = {}) {
  if (res.kind === 'ok') return 'ok ' + res.value.map((n) => canon(n, { lit: o.fold ? fold : undefined })).join('\n');
  const i = errIndex(res.value, toks);
  const m = scrubMsg(String(res.value.message));
  return 'err at ' + i + (o.noMsg ? '' : ' ' + (o.fold ? m.toUpperCase() : m));
}
function fold(l) { return /^[A-Za-z0-9_]*$/.test(l) ? l.toUpperCase() : l; }
// first place where two strings differ
function diff(a, b) { let i = 0; while (i < a.length && a[i] === b[i]) i++; return { at: i, a: a.slice(Math.max(0, i - 60), i + 100), b: b.slice(Math.max(0, i - 60), i + 100) }; }
module.exports = { errIndex, abstract, scrubMsg, codeToks, diff, reflex, EOFN };
