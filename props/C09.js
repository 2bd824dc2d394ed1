'use strict';
const { anyText, script } = require('../lib/workload.js');
const { layout, STYLES } = require('../lib/render.js');
const { abstract, diff, reflex, scrubMsg, EOFN } = require('../lib/rel.js');
const { canon } = require('../lib/tree.js');
// Statements do not influence each other: parse(A;\nB) = parse(A;) then parse(B), moved down.
function shift(n, d) { const c = {}; for (const k of Object.keys(n.children)) { const v = n.children[k]; c[k] = v.Node !== undefined ? { Node: shift(v.Node, d) } : { NodeVec: v.NodeVec.map((x) => shift(x, d)) }; } return { token: n.token && { line: n.token.line + d, column: n.token.column, literal: n.token.literal }, node_type: n.node_type, children: c }; }
const full = (n) => canon(n, { pos: true, comments: true });
// a script, or the beginning of one up to where a statement might end
function first(r) {
  if (r.bool(0.6)) {
    let toks = script(r, { maxFuel: 30, stmts: 1, semi: true }).toks;
    if (r.bool(0.5)) {
      const ends = toks.map((t, k) => k).filter((k) => toks[k].mayEnd);
      const k = ends.length && r.bool(0.6) ? r.pick(ends) : r.int(toks.length);
      if (toks[k].lit !== ',' || toks[k].mayEnd) toks = toks.slice(0, k + 1).concat([{ lit: ';', kind: 'sym' }]);
      return { src: 'cut', text: layout(toks, r, r.pick(STYLES)).text };
    }
    return { src: 'gen', text: layout(toks, r, r.pick(STYLES)).text };
  }
  return anyText(r, [[3, 'seed'], [6, 'mut'], [0.5, 'mutc'], [1, 'soup']]);
}
module.exports = {
  rule: 'a pair (accepted script ending in `;`, any script) parsed separately and joined, or an accepted script with and without its final `;`; distinct = distinct token sequences of the joined script',
  budget: { quick: 120000, thorough: 1200000 },
  run(i, r, ctx) {
    const a = first(r);
    let A = a.text;
    const la = reflex(A); if (la.err || !la.toks.length) { ctx.count('no_first_script'); return; }
    A = A.slice(0, la.toks[la.toks.length - 1].end);
    const code = la.toks.filter((t) => !t.comment), last = code[code.length - 1];
    if (!last) { ctx.count('no_first_script'); return; }
    if (((a.src === 'gen' || a.src === 'seed') && r.bool(0.4) || a.src === 'cut' && r.bool(0.8))) { // optional final semicolon
      if (last.lit === ';') A = A.slice(0, last.start); else A = A.slice(0, last.end);
      A = A.replace(/\p{White_Space}+$/u, '');
      const lb = reflex(A); if (lb.err) return;
      const cb = lb.toks.filter((t) => !t.comment); if (!cb.length || cb[cb.length - 1].lit === ';') { ctx.count('only_semicolons'); return; }
      const x = ctx.t().parse(A + '\n'), y = ctx.t().parse(A + '\n;');
      if (x.kind === 'crash' || y.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); return; }
      if (x.kind !== 'ok') { ctx.count('rejected_without_semicolon'); return; }
      ctx.tally('semicolon_pairs', a.src);
      ctx.observed(cb.map((t) => t.lit).join(' '), A);
      if (y.kind !== 'ok') { ctx.violation({ sig: 'rejected-with-semicolon', input: A, detail: y.value }); return; }
      const sx = x.value.map((n) => canon(n, { pos: true })), ry = y.value, lastY = ry[ry.length - 2];
      const semi = lastY && lastY.children.semicolon;
      if (ry.length !== x.value.length || !semi || !semi.Node || semi.Node.token.literal !== ';') { ctx.violation({ sig: 'semicolon-not-on-last-statement', input: A, detail: { statements: [x.value.length, ry.length], last: lastY && Object.keys(lastY.children) } }); return; }
      const sy = ry.map((n, k) => canon(k === ry.length - 2 ? { token: n.token, node_type: n.node_type, children: Object.fromEntries(Object.entries(n.children).filter(([key]) => key !== 'semicolon')) } : n, { pos: true }));
      if (sx.join('\n') !== sy.join('\n')) ctx.violation({ sig: 'semicolon-changes-tree', input: A, detail: diff(sx.join('\n'), sy.join('\n')) });
      return;
    }
    if (last.lit !== ';') { ctx.count('first_script_has_no_semicolon'); return; }
    const x = ctx.t().parse(A);
    if (x.kind === 'err') { // an error is reported whatever follows the statement it lies in
      const e = x.value;
      if (e.line === EOFN || e.line > last.line || e.line === last.line && e.column > last.column) { ctx.count('first_script_ends_early'); return; }
      const b = r.bool(0.5) ? layout(script(r, { maxFuel: 20 }).toks, r, r.pick(STYLES)).text : anyText(r, [[3, 'seed'], [3, 'mut'], [1, 'soup']]).text;
      const lb = reflex(b); if (lb.err) { ctx.count('second_script_not_tokenized'); return; }
      let depth = 0; for (const t of lb.toks) { if (t.lit === '(') depth++; else if (t.lit === ')' && --depth < 0) break; }
      if (depth < 0) { ctx.count('second_script_closes_too_much'); return; }
      const z = ctx.t().parse(A + '\n' + b);
      if (z.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); return; }
      ctx.tally('followed_errors', a.src);
      ctx.observed(code.map((t) => t.lit).join(' ') + ' ## ' + lb.toks.length, A);
      if (z.kind === 'ok' || z.value.line !== e.line || z.value.column !== e.column || z.value.message !== e.message) ctx.violation({ sig: 'error-depends-on-what-follows', input: A + '\n' + b, detail: { alone: e, followed: z.kind === 'ok' ? 'accepted' : z.value } });
      return;
    }
    if (x.kind !== 'ok') { ctx.count('first_script_rejected'); return; }
    // in some broken statements that are let through, `;` is not the end of the statement
    const lastA = x.value[x.value.length - 2], sc = lastA && lastA.children.semicolon;
    if (!sc || !sc.Node || sc.Node.token.line !== last.line || sc.Node.token.column !== last.column) { ctx.count('first_script_not_terminated'); return; }
    const b = r.bool(0.4) ? { src: 'gen', text: layout(script(r, { maxFuel: 30 }).toks, r, r.pick(STYLES)).text } : anyText(r, [[3, 'seed'], [6, 'mut'], [1, 'mutc'], [1.5, 'soup']]);
    const y = ctx.t().parse(b.text);
    const sep = r.pick(['\n', '\n\n', '\n \n']);
    const d = (A + sep).split('\n').length - 1;
    const joinText = A + sep.slice(0, sep.lastIndexOf('\n') + 1) + b.text;
    const z = ctx.t().parse(joinText);
    if (y.kind === 'crash' || z.kind === 'crash') { ctx.count('crashed_texts_left_to_C04'); return; }
    ctx.tally('joined', a.src + ' + ' + b.src + ' (' + y.kind + ')');
    ctx.observed(code.map((t) => t.lit).join(' ') + ' || ' + reflex(b.text).toks.map((t) => t.lit).join(' '), joinText);
    if (y.kind === 'err') {
      if (z.kind === 'ok') { ctx.violation({ sig: 'joined-accepted-though-second-is-rejected', input: joinText, detail: y.value }); return; }
      const e = y.value, g = z.value;
      const el = e.line === EOFN ? EOFN : e.line + d;
      if (g.line !== el || g.column !== e.column || scrubMsg(g.message) !== scrubMsg(e.message)) ctx.violation({ sig: 'joined-error-moved', input: joinText, detail: { alone: e, joined: g, shift: d } });
      return;
    }
    if (z.kind !== 'ok') { ctx.violation({ sig: 'joined-rejected', input: joinText, detail: z.value }); return; }
    // comments standing after the last token of A belong to what follows
    const xe = x.value[x.value.length - 1];
    if (xe.children.leading_comments) { ctx.count('first_script_ends_in_comment'); return; }
    const want = x.value.slice(0, -1).map(full).concat(y.value.map((n) => full(shift(n, d)))).join('\n'), got = z.value.map(full).join('\n');
    if (want !== got) ctx.violation({ sig: 'joined-differs', input: joinText, detail: diff(want, got) });
    if (z.value.filter((n) => n.node_type === 'EOF').length !== 1 || z.value[z.value.length - 1].node_type !== 'EOF') ctx.violation({ sig: 'end-node', input: joinText });
  },
};
