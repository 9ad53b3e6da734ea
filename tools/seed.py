"""seed.py new ID PROP package path 'needs' 'breaks'   (patch = current diff of /repo, reverted afterwards; main.rs from stdin)
   seed.py demo ID [...]      demo on the clean tree and with the patch
   seed.py check ID [...]     the property's check with the patch applied"""
import json, os, subprocess, sys, time, shutil
ROOT = '/verif/seeded'


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def new(id, prop, pkg, path, needs, breaks):
    d = f'{ROOT}/{id}'
    os.makedirs(d, exist_ok=True)
    diff = sh('git -C /repo diff').stdout
    assert diff.strip(), 'no diff in /repo'
    open(d + '/patch.diff', 'w').write(diff)
    sh('git -C /repo checkout -- .')
    open(d + '/main.rs', 'w').write(sys.stdin.read())
    pk = pkg.split(',')
    deps = '\n'.join(f'{p} = {{ path = "/repo/{q}" }}' for p, q in zip(pk, path.split(',')))
    open(d + '/Cargo.toml', 'w').write(f'''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
{deps}
cosmwasm-std = {{ version = "1.5", features = ["stargate", "cosmwasm_1_2"] }}
serde_json = "1"

[profile.dev]
debug = 0
incremental = false
''')
    shutil.copy('/verif/replay/Cargo.lock', d + '/Cargo.lock')
    demo_sh(id, pk, path.split(','))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)


def demo_sh(id, pk, paths):
    d = f'{ROOT}/{id}'
    libs = ' '.join(p.replace('-', '_') for p in pk if p != 'astroport')
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0: the behaviour is as the property says; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=/tmp/astro_demo_{id}
rm -rf /tmp/astro_demo_{id}
mkdir -p "$t" || exit 2
cp "$d/Cargo.toml" "$d/Cargo.lock" "$d/main.rs" "$t/" || exit 2
cd "$t" || exit 2
export HOME="${{HOME:-/root}}" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
# quick: link against the libraries the build has just made, when they are newer than their sources
ok=
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
p="${{CARGO_TARGET_DIR:-/nowhere}}/debug/deps"
x="-L dependency=$p"
for l in {libs}; do
  f="$p/lib$l.rlib"
  [ -f "$f" ] || f=$(ls -t "$p"/lib$l-*.rlib 2>/dev/null | head -1)
  [ -n "$f" ] && [ -f "$f" ] || x=
  [ -n "$x" ] && [ -n "$(find {' '.join('/repo/' + q + '/src' for q in paths)} -name '*.rs' -newer "$f" | head -1)" ] && x=
  [ -n "$x" ] && x="$x --extern $l=$f"
done
if [ -n "$x" ]; then
  for l in cosmwasm_std serde_json; do
    f=$(ls -t "$p"/lib$l-*.rlib 2>/dev/null | head -1)
    [ -n "$f" ] && x="$x --extern $l=$f"
  done
  for a in "$p"/libastroport-*.rlib; do
    if rustc --edition 2021 --crate-name demo main.rs -o demo $x --extern astroport=$a -C codegen-units=8 --cap-lints allow >log 2>&1; then ok=1; break; fi
  done
fi
if [ -n "$ok" ]; then
  ./demo
else
  export CARGO_TARGET_DIR="${{DEMO_TARGET:-$t/target}}"
  RUSTFLAGS="--cap-lints allow" cargo run --offline -q
fi
r=$?
cd /
rm -rf /tmp/astro_demo_{id}
exit $r
''')


def demo(ids):
    env = dict(os.environ, DEMO_TARGET='/tmp/demo_target')
    for id in ids:
        d = f'{ROOT}/{id}'
        t = time.time()
        if os.environ.get('REBUILD', '1') == '1':
            sh('bash /opt/vp/build.sh')
        a = sh(f'bash {d}/demo.sh', cwd='/repo', env=env)
        ap = sh(f'git -C /repo apply {d}/patch.diff')
        if ap.returncode:
            print(id, 'does not apply', ap.stdout)
            continue
        br = sh('bash /opt/vp/build.sh')
        tests = 'does not build'
        if br.returncode == 0:
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            base = json.load(open('/opt/vp/BASELINE.json'))
            got = json.load(open('/tmp/seedtest.json'))
            names = base.get('passed') or base.get('stable') or list(base.values())[0]
            bad = set(names) - set(got.get('passed', []))
            tests = f'{len(bad)} of {len(names)} stable tests fail {sorted(bad)[:3]}'
        b = sh(f'bash {d}/demo.sh', cwd='/repo', env=env)
        r = None if os.environ.get('NOCHECK') else sh(f'python3-vt engine/check.py {json.load(open(d + "/meta.json"))["property"]}', cwd='/verif', env=dict(os.environ, VERIF_TARGET=os.environ.get('VT', '/tmp/vt'), VERIF_TIER='quick', VERIF_SEED='1'))
        sh('git -C /repo checkout -- .')
        print(id, '-' if r is None else 'CAUGHT' if r.returncode == 1 else 'MISSED', tests, '|', r and r.stdout.strip()[-400:].replace('\n', ' | '))
        print(id, 'clean', a.returncode, 'patched', b.returncode, 'GOOD' if a.returncode == 0 and b.returncode else 'BAD', round(time.time() - t), 's')
        if a.returncode:
            print(a.stdout[-2500:])
        print('   ', b.stdout.strip()[-400:])


def tests(ids):
    for id in ids:
        d = f'{ROOT}/{id}'
        sh(f'git -C /repo apply {d}/patch.diff')
        r = sh('bash /opt/vp/build.sh')
        ok = 'build failed' if r.returncode else ''
        if not ok:
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            base = json.load(open('/opt/vp/BASELINE.json'))
            got = json.load(open('/tmp/seedtest.json'))
            names = base.get('passed') or base.get('stable') or list(base.values())[0]
            bad = set(names) - set(got.get('passed', []))
            ok = f'{len(bad)} of {len(names)} stable tests fail {sorted(bad)[:3]}'
        sh('git -C /repo checkout -- .')
        print(id, ok)
    sh('bash /opt/vp/build.sh')


def check(ids):
    env = dict(os.environ, VERIF_TARGET=os.environ.get('VT', '/tmp/vt'), VERIF_TIER='quick', VERIF_SEED='1')
    for id in ids:
        d = f'{ROOT}/{id}'
        p = json.load(open(d + '/meta.json'))['property']
        ap = sh(f'git -C /repo apply {d}/patch.diff')
        if ap.returncode:
            print(id, 'does not apply', ap.stdout)
            continue
        r = sh(f'python3-vt engine/check.py {p}', cwd='/verif', env=env)
        sh('git -C /repo checkout -- .')
        print(id, p, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout else 'missed', '|', r.stdout.strip()[-600:].replace('\n', ' | '))


c = sys.argv[1]
if c == 'new':
    new(*sys.argv[2:8])
else:
    if c == 'sh':
        for id in sys.argv[2:]:
            import re
            l = re.findall(r'^(\S+) = \{ path = "/repo/(\S+)" \}', open(f'{ROOT}/{id}/Cargo.toml').read(), re.M)
            demo_sh(id, [a for a, _ in l], [b for _, b in l])
        sys.exit()
    ids = sys.argv[2:] if sys.argv[2:] != ['all'] else sorted(os.listdir(ROOT))
    {'demo': demo, 'check': check, 'tests': tests}[c](ids)
