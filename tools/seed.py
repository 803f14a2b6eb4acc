#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/bugs/*.py: BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=go source | (path, source))].
Confirms each in a scratch copy: builds, stable tests pass, demo passes without and fails with the change."""
import os, sys, json, subprocess, shutil, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)
bugs = []
for f in sorted(glob.glob(V + '/tools/bugs/*.py')):
    ns = {}
    exec(open(f).read(), ns)
    bugs += ns['BUGS']
DEMO = '''#!/bin/bash
# run in the repository; %s
D="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s" "$D/%s" > "$W/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off
%s
'''
want = sys.argv[1:]
for b in bugs:
    if want and b['id'] not in want: continue
    d = os.path.join(V, 'seeded', b['id'])
    if os.path.exists(d + '/meta.json') and not want: continue
    tmp = tempfile.mkdtemp(prefix='seed_')
    r = tmp + '/repo'
    sh(f'git worktree prune; cp -a /repo {r}', '/repo')
    for f, old, new in b['edits']:
        s = open(f'{r}/{f}').read()
        if s.count(old) != 1:
            print(b['id'], 'edit does not apply once:', s.count(old), old[:60]); break
        open(f'{r}/{f}', 'w').write(s.replace(old, new))
    else:
        os.makedirs(d, exist_ok=True)
        diff = sh('git diff', r).stdout
        open(d + '/patch.diff', 'w').write(diff)
        if 'test' in b:   # in-package test
            path, src = b['test']
            pkg = './' + os.path.dirname(path)
            open(d + '/demo_test.go', 'w').write(src)
            cmd = f'go test -vet=off -overlay "$W/overlay.json" -run TestSeededDemo {pkg}'
            open(d + '/demo.sh', 'w').write(DEMO % (b['breaks'].split('\n')[0], path, 'demo_test.go', cmd))
        else:
            open(d + '/main.go', 'w').write(b['demo'])
            open(d + '/demo.sh', 'w').write(DEMO % (b['breaks'].split('\n')[0], 'zzdemo/main.go', 'main.go', 'go run -overlay "$W/overlay.json" ./zzdemo'))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        build = sh('go build ./... && go vet ./schema ./sqlparser >/dev/null 2>&1; go build ./...', r)
        tests = sh('PATH='+r+'/cmd/sqlite3def:$PATH go test -vet=off -count=1 ./cmd/sqlite3def ./sqlparser/... 2>&1 | grep -v "no test files"', r)
        base = json.load(open('/opt/vp/BASELINE.json')) if os.path.exists('/opt/vp/BASELINE.json') else None
        bad = [l for l in tests.stdout.split('\n') if l.startswith('FAIL') or l.startswith('--- FAIL')]
        d0 = sh(f'bash {d}/demo.sh', '/repo'); d1 = sh(f'bash {d}/demo.sh', r)
        ok = build.returncode == 0 and d0.returncode == 0 and d1.returncode != 0 and not bad
        print('OK ' if ok else 'BAD', b['id'], 'build', build.returncode, 'demo', d0.returncode, d1.returncode, bad[:3])
        if not ok: print(build.stdout[-600:], d0.stdout[-900:], '---', d1.stdout[-500:])
    shutil.rmtree(tmp)
