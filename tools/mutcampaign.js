'use strict';
// Self-test of the framework (not a check): applies mutants to scratch copies of the crate, keeps
// those that compile and pass the unit tests, and asks the monitors about them.
//   node mutcampaign.js OUTFILE [workers] [max] [--retry FILE]
const fs = require('fs'); const path = require('path'); const { spawn, execFileSync, spawnSync } = require('child_process');
const { mutants } = require('./mutants.js'); const { Rng } = require('../lib/prng.js');
const OUT = process.argv[2], W = +(process.argv[3] || 6), MAX = +(process.argv[4] || 1e9);
const BASE = '/tmp/mut';
const env = (t) => Object.assign({}, process.env, { RUSTUP_TOOLCHAIN: '1.98.0', CARGO_NET_OFFLINE: 'true', CARGO_TERM_COLOR: 'never', CARGO_INCREMENTAL: '1', CARGO_PROFILE_DEV_DEBUG: '0', CARGO_TARGET_DIR: t, RUSTFLAGS: '-Awarnings', CARGO_BUILD_JOBS: '2', PATH: '/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin' });
function run(cmd, args, o, secs) { return new Promise((res) => { const p = spawn(cmd, args, Object.assign({ stdio: ['ignore', 'pipe', 'pipe'], detached: true }, o)); let s = ''; p.stdout.on('data', (d) => { s += d; }); p.stderr.on('data', (d) => { s += d; }); const k = setTimeout(() => { try { process.kill(-p.pid, 'SIGKILL'); } catch (e) {} }, secs * 1000); p.on('close', (c) => { clearTimeout(k); res({ code: c, out: s }); }); }); }
const done = new Set(); if (fs.existsSync(OUT)) for (const l of fs.readFileSync(OUT, 'utf8').split('\n')) if (l) done.add(JSON.parse(l).key);
const ri = process.argv.indexOf('--retry'); const again = ri > 0 ? new Set(fs.readFileSync(process.argv[ri + 1], 'utf8').split('\n').filter(Boolean).map((l) => JSON.parse(l)).filter((m) => m.st === 'survived' || m.st === 'odd').map((m) => m.key)) : null;
let all = mutants('/repo').map((m) => Object.assign(m, { key: m.file + '|' + m.line + '|' + m.to }));
const r = new Rng('campaign'); for (let i = all.length - 1; i > 0; i--) { const j = r.int(i + 1); [all[i], all[j]] = [all[j], all[i]]; }
all = all.filter((m) => !done.has(m.key) && (!again || again.has(m.key))).slice(0, MAX);
let next = 0;
async function worker(w) {
  const dir = path.join(BASE, 'w' + w); fs.mkdirSync(dir, { recursive: true });
  spawnSync('rsync', ['-a', '--delete', '--exclude', 'target', '--exclude', '.git', '--exclude', 'pkg', '/repo/', dir + '/repo/']);
  const orig = {};
  while (next < all.length) {
    const m = all[next++]; const f = path.join(dir, 'repo/src', m.file);
    if (!orig[m.file]) orig[m.file] = fs.readFileSync(f, 'utf8');
    const L = orig[m.file].split('\n'); if (L[m.line] !== m.from) { console.log('stale'); continue; } L[m.line] = m.to; fs.writeFileSync(f, L.join('\n'));
    let st, why = '';
    const t = await run('cargo', ['test', '--offline', '--lib', '--manifest-path', dir + '/repo/Cargo.toml'], { env: env(dir + '/target'), cwd: dir + '/repo' }, 60);
    if (t.code !== 0) st = /could not compile/.test(t.out) ? 'nocompile' : 'tests';
    else {
      const b = await run('cargo', ['build', '--offline', '--lib', '--target', 'wasm32-unknown-unknown', '--manifest-path', dir + '/repo/Cargo.toml'], { env: Object.assign(env(dir + '/target'), { CARGO_PROFILE_DEV_OPT_LEVEL: '1', CARGO_PROFILE_DEV_OVERFLOW_CHECKS: 'true' }), cwd: dir + '/repo' }, 120);
      if (b.code !== 0) st = 'nobuild';
      else {
        const pkg = dir + '/pkg'; fs.rmSync(pkg, { recursive: true, force: true });
        execFileSync('/opt/vp/wbg/bin/wasm-bindgen', ['--target', 'nodejs', '--out-dir', pkg, dir + '/target/wasm32-unknown-unknown/debug/bq2cst.wasm'], { stdio: 'ignore' });
        const { instrument } = require('../lib/wasmcov.js'); const x = instrument(fs.readFileSync(pkg + '/bq2cst_bg.wasm')); fs.writeFileSync(pkg + '/inst.wasm', x.wasm); fs.writeFileSync(pkg + '/inst.json', JSON.stringify({ points: x.points, funcs: x.funcs, own: x.own }));
        const c = await run(process.execPath, ['--stack-size=3000', path.join(__dirname, 'mutrun.js'), pkg, process.env.SECS || '5'], {}, 400);
        const last = c.out.trim().split('\n').pop() || ''; st = /^KILLED/.test(last) ? 'killed' : /^SURVIVED/.test(last) ? 'survived' : 'odd'; why = st === 'survived' ? '' : c.out.trim().slice(0, 400);
      }
    }
    fs.writeFileSync(f, orig[m.file]);
    fs.appendFileSync(OUT, JSON.stringify({ key: m.key, file: m.file, line: m.line + 1, op: m.op, from: m.from, to: m.to, st, why }) + '\n');
  }
}
Promise.all(Array.from({ length: W }, (_, w) => worker(w))).then(() => console.log('done'));
