'use strict';
// Builds the shipping wasm package from /repo's *current working tree* and
// instruments it. Never trusts mtimes: the crate's own fingerprints are removed so it
// is always recompiled. Serialised by flock so checks may run side by side.
const { execFileSync, spawnSync } = require('child_process');
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');
const ROOT = path.resolve(__dirname, '..');
const REPO = '/repo';
const WBG = '/opt/vp/wbg/bin/wasm-bindgen';

function env(extra) {
  const e = Object.assign({}, process.env, {
    RUSTUP_TOOLCHAIN: '1.98.0', CARGO_NET_OFFLINE: 'true', CARGO_TERM_COLOR: 'never', RUSTC_WRAPPER: '', CARGO_INCREMENTAL: '0',
  }, extra);
  for (const k of ['CARGO_BUILD_TARGET', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS']) if (!(k in (extra || {}))) delete e[k];
  e.PATH = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + (process.env.PATH || '');
  return e;
}
const VARIANTS = {
  release: {},
  // arithmetic-overflow checks and debug assertions on: the sanitizer build
  checked: { CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS: 'true', CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS: 'true' },
};
function buildInner(variant) {
  const base = path.join(ROOT, 'build', variant);
  const target = path.join(base, 'target');
  fs.mkdirSync(target, { recursive: true });
  const rel = path.join(target, 'wasm32-unknown-unknown', 'release');
  const fp = path.join(rel, '.fingerprint');
  if (fs.existsSync(fp)) for (const d of fs.readdirSync(fp)) if (d.startsWith('bq2cst-')) fs.rmSync(path.join(fp, d), { recursive: true, force: true });
  const lockBefore = fs.existsSync(REPO + '/Cargo.lock') ? fs.readFileSync(REPO + '/Cargo.lock') : null;
  const r = spawnSync('cargo', ['build', '--release', '--offline', '--target', 'wasm32-unknown-unknown', '--lib', '--manifest-path', REPO + '/Cargo.toml'],
    { env: env(Object.assign({ CARGO_TARGET_DIR: target }, VARIANTS[variant])), cwd: REPO, encoding: 'utf8', timeout: 800000 });
  if (lockBefore && !fs.readFileSync(REPO + '/Cargo.lock').equals(lockBefore)) fs.writeFileSync(REPO + '/Cargo.lock', lockBefore);
  if (r.status !== 0) throw new Error('build of /repo failed:\n' + (r.stderr || '').slice(-4000) + (r.error || ''));
  // the package directory is named after the module's contents, so that a check running
  // side by side never sees it change
  const raw = path.join(rel, 'bq2cst.wasm');
  const pkg = path.join(base, 'pkg-' + crypto.createHash('sha256').update(fs.readFileSync(raw)).digest('hex').slice(0, 16));
  if (!fs.existsSync(pkg)) {
    const tmp = fs.mkdtempSync(path.join(base, 'tmp-'));
    execFileSync(WBG, ['--target', 'nodejs', '--out-dir', tmp, raw], { env: env(), stdio: ['ignore', 'ignore', 'inherit'] });
    const { instrument } = require('./wasmcov.js');
    const { wasm, points, funcs, own } = instrument(fs.readFileSync(path.join(tmp, 'bq2cst_bg.wasm')));
    fs.writeFileSync(path.join(tmp, 'inst.wasm'), wasm);
    fs.writeFileSync(path.join(tmp, 'inst.json'), JSON.stringify({ points, funcs, own }));
    fs.renameSync(tmp, pkg);
  }
  const now = new Date();
  fs.utimesSync(pkg, now, now);
  for (const d of fs.readdirSync(base)) { const f = path.join(base, d); if (/^(pkg|tmp)/.test(d) && f !== pkg && now - fs.statSync(f).mtime > 4 * 3600e3) fs.rmSync(f, { recursive: true, force: true }); }
  return pkg;
}
function build(variant) {
  fs.mkdirSync(path.join(ROOT, 'build'), { recursive: true });
  const t0 = Date.now();
  const r = spawnSync('flock', [path.join(ROOT, 'build', variant + '.lock'), process.execPath, __filename, variant], { encoding: 'utf8', timeout: 850000 });
  if (r.status !== 0) throw new Error((r.stderr || '') + (r.error || ''));
  const pkg = (/^PKG (.*)$/m.exec(r.stdout) || [])[1];
  if (!pkg) throw new Error('no package was built');
  return { pkg, build_s: (Date.now() - t0) / 1000 };
}
module.exports = { build };
if (require.main === module) {
  try { console.log('PKG ' + buildInner(process.argv[2] || 'release')); } catch (e) { console.error(String(e.message || e)); process.exit(2); }
}
