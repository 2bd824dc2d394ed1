'use strict';
// Runs one property's monitor over its workload on all cores and reports.
//   exit 0  held on everything observed      exit 1  VIOLATION printed
//   exit 2  no verdict (build or harness failure, time-out, nothing observed)
const { Worker, isMainThread, parentPort, workerData } = require('worker_threads');
const fs = require('fs');
const os = require('os');
const path = require('path');
const { Rng, hash32 } = require('./prng.js');
const { Target, covSummary } = require('./target.js');
const ROOT = path.resolve(__dirname, '..');

class Ctx { // what a property's code sees
  constructor(wd) {
    Object.assign(this, wd);
    this.targets = {};
    this.n = { evaluations: 0 };
    this.hist = {};                 // named histograms
    this.distinct = new Set();
    this.samples = [];
    this.viol = [];
  }
  // the instrumented build unless name ends in '-plain'
  t(name = 'release') {
    if (!this.targets[name]) {
      const plain = name.endsWith('-plain');
      this.targets[name] = new Target(this.pkgs[name.replace('-plain', '')], { plain, limit: this.limit });
    }
    return this.targets[name];
  }
  count(k, d = 1) { this.n[k] = (this.n[k] || 0) + d; }
  tally(h, k, d = 1) { const o = this.hist[h] || (this.hist[h] = {}); o[k] = (o[k] || 0) + d; }
  // one decided evaluation; key identifies the distinct non-trivial situation
  observed(key, sample) {
    this.n.evaluations++;
    if (key !== undefined && key !== null) {
      if (this.distinct.size < 400000) { const h = hash32(key) * 1048576 + (hash32('x' + key) & 1048575); if (!this.distinct.has(h)) { this.distinct.add(h); if (sample && this.samples.length < 3) this.samples.push(sample); } }
    }
  }
  violation(v) { // {sig, input, detail}
    if (this.viol.some((x) => x.sig === v.sig)) { this.count('duplicate_violations'); return; }
    v.case = this.i; this.viol.push(v);
  }
}

function workerMain() {
  const wd = workerData;
  Object.assign(require('./direct.js').tables, wd.tables);
  const prop = require(path.join(ROOT, 'props', wd.id + '.js'));
  const ctx = new Ctx(wd);
  if (prop.init) prop.init(ctx);
  const end = Date.now() + wd.cap * 1000;
  let done = 0, capped = false;
  const only = wd.only;
  for (let i = only !== null ? only : wd.w; i < wd.total; i += wd.W) {
    if (Date.now() > end) { capped = true; break; }
    ctx.i = i;
    prop.run(i, new Rng(wd.seed + ':' + wd.id + ':' + i), ctx);
    done++;
    if (ctx.viol.length >= 4 || only !== null) break;
  }
  if (prop.finish) prop.finish(ctx);
  // shrink what was found, briefly
  if (prop.judge) for (const v of ctx.viol) if (typeof v.input === 'string') v.shrunk = shrinkText(v.input, (s) => { try { return prop.judge(s, ctx); } catch (e) { return null; } }, v.sig, 6000);
  if (prop.shrinkCase) for (const v of ctx.viol) { try { v.shrunk = prop.shrinkCase(v, new Rng(wd.seed + ':' + wd.id + ':' + v.case), ctx); } catch (e) { v.shrunk = undefined; } }
  const cov = {}; for (const k of Object.keys(ctx.targets)) { const t = ctx.targets[k]; if (t.instrumented) cov[k] = t.coverage(); }
  let calls = 0, instances = 0; for (const t of Object.values(ctx.targets)) { calls += t.calls; instances += t.instances; }
  parentPort.postMessage({ done, capped, n: ctx.n, hist: ctx.hist, distinct: [...ctx.distinct], samples: ctx.samples, viol: ctx.viol, cov, calls, instances, extra: ctx.extra });
}
// judge(text) -> signature | null
function shrinkText(text, judge, sig, budget) {
  const t0 = Date.now(); let best = [...text];
  const ok = (a) => { const s = judge(a.join('')); return s === sig; };
  if (!ok(best)) return undefined;
  for (let len = best.length >> 1; len >= 1; len >>= 1) {
    for (let i = 0; i < best.length && Date.now() - t0 < budget;) { const c = best.slice(0, i).concat(best.slice(i + len)); if (ok(c)) best = c; else i += len; }
  }
  return best.join('');
}

function knownFindings(id) {
  const f = path.join(ROOT, 'known-findings.txt');
  const out = [];
  if (fs.existsSync(f)) for (const l of fs.readFileSync(f, 'utf8').split('\n')) { const m = /^known: property=(\S+) (\{.*\})$/.exec(l); if (m && m[1] === id) out.push(JSON.parse(m[2])); }
  return out;
}
function fail2(msg) { console.log('INCONCLUSIVE ' + msg); process.exit(2); }

async function main(argv) {
  const id = argv[0];
  const opt = { tier: process.env.VERIF_TIER || 'quick', seed: process.env.VERIF_SEED || '1' };
  for (let i = 1; i < argv.length; i++) {
    if (argv[i] === '--tier') opt.tier = argv[++i];
    else if (argv[i] === '--seed') opt.seed = argv[++i];
    else if (argv[i] === '--cases') opt.cases = +argv[++i];
    else if (argv[i] === '--cap') opt.cap = +argv[++i];
    else if (argv[i] === '--pkg') opt.pkg = argv[++i];
    else if (argv[i] === '--replay') { opt.replay = JSON.parse(fs.readFileSync(argv[++i], 'utf8')); opt.seed = opt.replay.seed; opt.tier = opt.replay.tier; }
  }
  const tier = opt.tier === 'thorough' ? 'thorough' : 'quick';
  const seed = Number.isInteger(+opt.seed) ? +opt.seed : 1;
  const prop = require(path.join(ROOT, 'props', id + '.js'));
  const t0 = Date.now();
  const variants = prop.builds || ['release'];
  const pkgs = {}; let build_s = 0;
  try {
    const { build } = require('./build.js');
    for (const v of variants) { if (opt.pkg && v === 'release') { pkgs[v] = opt.pkg; continue; } const b = build(v); pkgs[v] = b.pkg; build_s += b.build_s; }
  } catch (e) { fail2('build failed: ' + e.message); }
  let total = opt.cases || prop.budget[tier];
  if (typeof total === 'function') total = total();
  if (prop.fixedCases) total += prop.fixedCases(tier);
  const cap = opt.cap || (prop.cap && prop.cap[tier]) || (tier === 'quick' ? 200 : 700);
  const W = opt.replay ? 1 : Math.min(prop.workers || 8, os.cpus().length);
  const hard = setTimeout(() => fail2('watchdog: the run did not finish'), (cap + (tier === 'quick' ? 250 : 1200)) * 1000);
  const limit = prop.limit || 3e9;
  const tables = {}; for (const k of prop.directed || ['stmt']) tables[k] = require('./direct.js').targets(k); // collected once, shared by the workers
  const res = await Promise.all(Array.from({ length: W }, (_, w) => new Promise((resolve, reject) => {
    const wk = new Worker(__filename, { workerData: { id, tier, seed, w, W, total, cap, pkgs, limit, tables, only: opt.replay ? opt.replay.case : null },
      resourceLimits: { maxOldGenerationSizeMb: 3500, stackSizeMb: prop.stackMb || 4 } });
    let got = null;
    wk.on('message', (m) => { got = m; });
    wk.on('error', reject);
    wk.on('exit', (c) => (got ? resolve(got) : reject(new Error('worker ended with ' + c))));
  }))).catch((e) => fail2('harness: ' + (e && e.stack || e)));
  clearTimeout(hard);
  // merge
  const n = {}, hist = {}, distinct = new Set(), samples = [], viol = [];
  let done = 0, calls = 0, instances = 0, capped = false; const cov = {}; const extras = [];
  for (const r of res) {
    done += r.done; calls += r.calls; instances += r.instances; capped = capped || r.capped;
    for (const k in r.n) n[k] = (n[k] || 0) + r.n[k];
    for (const h in r.hist) { hist[h] = hist[h] || {}; for (const k in r.hist[h]) hist[h][k] = (hist[h][k] || 0) + r.hist[h][k]; }
    for (const d of r.distinct) distinct.add(d);
    for (const s of r.samples) if (samples.length < 8) samples.push(s);
    for (const v of r.viol) if (!viol.some((x) => x.sig === v.sig)) viol.push(v);
    for (const k in r.cov) { if (!cov[k]) cov[k] = r.cov[k]; else for (let i = 0; i < cov[k].length; i++) cov[k][i] |= r.cov[k][i]; }
    if (r.extra) extras.push(r.extra);
  }
  const known = knownFindings(id), fresh = [], seen = [];
  for (const v of viol) { const k = known.find((x) => x.sig === v.sig && (x.input === undefined || x.input === v.input || x.input === v.shrunk)); if (k) seen.push(k); else fresh.push(v); }
  const evals = n.evaluations || 0;
  delete n.evaluations;
  const covOut = {}; for (const k in cov) covOut[k] = covSummary(JSON.parse(fs.readFileSync(path.join(pkgs[k], 'inst.json'), 'utf8')), cov[k]);
  const ev = {
    property: id, tier, seed, level: 'exploration',
    coverage: { evaluations: evals, distinct_nontrivial: distinct.size, rule: prop.rule, samples: samples.map((s) => String(s).slice(0, 400)),
      cases: done, api_calls: calls, instances_started: instances, stopped_at_time_cap: capped, observed: n, breakdown: trim(hist), control_flow: covOut, builds: variants, build_s },
    wall_s: (Date.now() - t0) / 1000,
    assumptions: prop.assumptions || [],
    violations: fresh.map((v) => v.sig),
  };
  if (prop.summarise) Object.assign(ev.coverage, prop.summarise(extras));
  if (known.length) ev.known_findings = seen.map((k) => k.sig);
  if (!opt.replay) { fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true }); fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n'); }
  for (const k of seen) console.log('KNOWN-FINDING: property=' + id + ' ' + k.what);
  console.log(`${id} ${tier} seed=${seed}: ${evals} evaluations, ${distinct.size} distinct, ${done} cases, ${calls} calls, ${ev.wall_s.toFixed(1)} s` + (capped ? ' (stopped at time cap)' : ''));
  if (process.env.VERBOSE) console.log(JSON.stringify({ n, hist, covOut }, null, 1));
  if (fresh.length) {
    fs.mkdirSync(path.join(ROOT, 'replay'), { recursive: true });
    for (const v of fresh) {
      const f = path.join(ROOT, 'replay', `${id}-${hash32(v.sig).toString(16)}.json`);
      fs.writeFileSync(f, JSON.stringify(Object.assign({ property: id, seed, tier }, v), null, 1) + '\n');
      console.log('  ' + v.sig + '\n    input: ' + JSON.stringify(v.shrunk !== undefined ? v.shrunk : v.input).slice(0, 600) + '\n    ' + JSON.stringify(v.detail || null).slice(0, 600));
      console.log(`VIOLATION property=${id} replay=${f}`);
    }
    process.exit(1);
  }
  const min = prop.minEvaluations === undefined ? 100 : prop.minEvaluations;
  if (!opt.replay && evals < (opt.cases ? 1 : min)) fail2(`only ${evals} evaluations were possible`);
  process.exit(0);
}
function trim(h) { const o = {}; for (const k in h) { const e = Object.entries(h[k]).sort((a, b) => b[1] - a[1]); o[k] = Object.fromEntries(e.slice(0, 150)); if (e.length > 150) o[k]['(more kinds)'] = e.length - 150; } return o; }
module.exports = { main, shrinkText };
if (!isMainThread) workerMain();
