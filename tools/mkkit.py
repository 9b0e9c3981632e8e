#!/usr/bin/env python3
"""mkkit.py [CRATE...]: /verif/tools/demos/kit-<last crate>.tgz, what a demonstration needs to build /repo's crates."""
import os, re, shutil, subprocess, sys
H = '/verif/harness'
ORDER = ["common", "storage", "metadata", "query", "ingester", "platform", "cmd"]
def mk(last, out):
    crates = ORDER[:ORDER.index(last) + 1]
    if last == 'ingester': crates = ["common", "storage", "metadata", "ingester"]
    K = '/tmp/mkkit/kit'
    shutil.rmtree('/tmp/mkkit', ignore_errors=True)
    os.makedirs(K + '/demo/src')
    for d in ['shims', 'manifests']: shutil.copytree(f'{H}/{d}', f'{K}/{d}', ignore=shutil.ignore_patterns('target'))
    for f in ['Cargo.lock', 'env.sh']: shutil.copy(f'{H}/{f}', K)
    t = open(H + '/Cargo.toml').read()
    t = t.replace('members = ["shims/*", "repo/*", "checks/*"]', 'members = ["shims/*", "repo/*", "demo"]')
    t = re.sub(r'(?m)^proputil = .*\n', '', t)
    for c in ORDER:
        if c not in crates: t = re.sub(r'(?m)^%s = .*\n' % c, '', t)
    t = t[:t.index('[profile.dev]')] + '[profile.dev]\ndebug = "line-tables-only"\n'
    open(K + '/Cargo.toml', 'w').write(t)
    s = open(H + '/sync.py').read()
    s = re.sub(r'CRATES = .*', 'CRATES = %r' % crates, s)
    open(K + '/sync.py', 'w').write(s)
    deps = crates + ['arrow2', 'tokio', 'futures', 'serde_json', 'chrono', 'arrow', 'datafusion', 'datafusion-common', 'datafusion-expr', 'rust_decimal', 'rocksdb', 'axum', 'async-trait', 'parking_lot', 'http', 'http-body-util', 'bytes']
    mods = (['world'] if 'metadata' in crates else []) + (['api'] if 'platform' in crates else [])
    for m in mods: shutil.copy(f'/verif/tools/demolib/{m}.rs', K + '/demo/src')
    if 'platform' in crates: deps += ['jsonwebtoken']
    if 'cmd' in crates: deps = [d for d in deps if d != 'tokio'] + ['object_store', 'zip', 'password-hash']
    if 'cmd' in crates: shutil.copy('/verif/harness/checks/chk-cmd/src/clock.rs', K + '/demo/src')
    open(K + '/demo/Cargo.toml', 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n' + ''.join(f'{d}.workspace = true\n' for d in deps) + 'tower = { version = "0.5", features = ["util"] }\n' * ('platform' in crates) + 'libc = "0.2"\ntokio = { workspace = true, features = ["full", "test-util"] }\n' * ('cmd' in crates))
    subprocess.run(['tar', 'czf', out, '--sort=name', '--mtime=2026-01-01', '--owner=0', '--group=0', '-C', '/tmp/mkkit', 'kit'], check=True)
    shutil.rmtree('/tmp/mkkit')
for l in sys.argv[1:] or ORDER[1:]:
    mk(l, f'/verif/tools/demos/kit-{l}.tgz')
