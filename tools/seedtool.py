#!/usr/bin/env python3
"""Makes and verifies planted bugs (development tool).

seedtool.py make SPEC.py     SPEC defines SEEDS: list of dicts id, property, file, old, new (or edits), needs, breaks, demo (dict name->text)
seedtool.py verify [id...]   patch applies, builds, suite passes, demo 0 / nonzero
seedtool.py catch [id...]    applies to /repo, runs the property's quick check, undoes it
"""
import sys, os, json, subprocess, shutil
R = os.environ.get('VERIF_REPO', '/repo')
V = os.environ.get('VERIF_DIR', '/verif')
S = V + '/seeded'
SCR = '/tmp/seedscratch'

def sh(cmd, cwd, t=900, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t, env=env)

def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    r = sh(['cp', '-a', R, SCR], '/')
    assert r.returncode == 0, r.stderr

DEMO = '''#!/bin/bash
# %s
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cat > "$work/overlay.json" <<EOF
{"Replace": {"$PWD/%s/zz_planted_demo_test.go": "$here/demo_test.go.txt"}}
EOF
GOFLAGS=-mod=readonly GOPROXY=off go test -count=1 -vet=off -overlay "$work/overlay.json" -run '^TestPlantedDemo$' ./%s
'''

TSDEMO = '''#!/bin/bash
# %s
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
ESBUILD=/opt/veriftools/node/node_modules/.bin/esbuild
GOFLAGS=-mod=readonly GOPROXY=off go build -o "$work/appendable" ./cmd || exit 1
"$ESBUILD" --bundle --platform=node --format=cjs --log-level=error "--alias:@repo=$PWD" --outfile="$work/demo.cjs" "$here/demo.ts" || exit 1
timeout 120 node "$work/demo.cjs" "$work"
'''

SHDEMO = '''#!/bin/bash
# %s
set -u
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
GOFLAGS=-mod=readonly GOPROXY=off go build -o "$work/appendable" ./cmd || exit 1
cd "$work"
%s'''

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        fresh()
        for f, old, new in s['edits']:
            p = os.path.join(SCR, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        d = os.path.join(S, s['id'])
        os.makedirs(d, exist_ok=True)
        r = sh('gofmt -l pkg cmd; git diff', SCR)
        open(os.path.join(d, 'patch.diff'), 'w').write(r.stdout[r.stdout.index('diff --git'):])
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if 'sh' in s:
            open(os.path.join(d, 'demo.sh'), 'w').write(SHDEMO % (s['breaks'], s['sh']))
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            print('made', s['id'])
            continue
        ts = 'pkg' not in s
        with open(os.path.join(d, 'demo.sh'), 'w') as fh:
            fh.write(TSDEMO % s['breaks'] if ts else DEMO % (s['breaks'], s['pkg'], s['pkg']))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.ts' if ts else 'demo_test.go.txt'), 'w').write(s['demo'])
        print('made', s['id'])

def verify(ids):
    for i in ids:
        d = os.path.join(S, i)
        fresh()
        # demo elsewhere, without meta and patch
        dd = '/tmp/seeddemo'
        shutil.rmtree(dd, ignore_errors=True)
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        a = sh(['bash', dd + '/demo.sh'], SCR, 300)
        r = sh(['git', 'apply', d + '/patch.diff'], SCR)
        ok = r.returncode == 0
        b = sh(['bash', dd + '/demo.sh'], SCR, 300)
        t = sh('GOFLAGS=-mod=readonly go build ./... && go vet ./pkg/... >/dev/null; go test -count=1 ./... 2>&1 | grep -v "no test files"', SCR, 900)
        fails = [l for l in t.stdout.splitlines() if 'FAIL' in l]
        if 'b/src/' in open(d + '/patch.diff').read():
            sh('ln -s /opt/veriftools/node/node_modules src/node_modules', SCR)
            t = sh('npx vitest run --globals 2>&1', SCR + '/src', 300)
            fails += [l for l in t.stdout.splitlines() if 'FAIL' in l or 'failed' in l]
        good = ok and a.returncode == 0 and b.returncode != 0 and not fails
        print(i, 'GOOD' if good else 'BAD', 'apply', ok, 'clean', a.returncode, 'patched', b.returncode, 'suite', fails[:6])
        if not good or '-v' in sys.argv:
            print(a.stdout[-1500:], a.stderr[-500:], '----', b.stdout[-1500:], b.stderr[-300:])
        else:
            print('   ', [l.strip() for l in b.stdout.splitlines() if 'demo_test' in l or 'panic' in l or 'rror' in l][:3])
    shutil.rmtree(SCR, ignore_errors=True)
    shutil.rmtree('/tmp/seeddemo', ignore_errors=True)

def catch(ids):
    for i in ids:
        d = os.path.join(S, i)
        pid = json.load(open(d + '/meta.json'))['property']
        assert sh('git status --porcelain', R).stdout.strip() == ''
        r = sh(['git', 'apply', d + '/patch.diff'], R)
        try:
            assert r.returncode == 0, r.stderr
            c = sh(['./check.sh', pid, 'quick'], V, 900, dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        finally:
            sh(['git', 'checkout', '--', '.'], R)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, pid, 'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode, v[:1], flush=True)
        if not v:
            print(c.stdout[-1500:], c.stderr[-500:])

if __name__ == '__main__':
    cmd, rest = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
    if cmd == 'make':
        make(rest[0])
    else:
        ids = rest or sorted(os.listdir(S))
        (verify if cmd == 'verify' else catch)(ids)
