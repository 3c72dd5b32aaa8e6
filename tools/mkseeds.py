#!/usr/bin/env python3
"""Builds /verif/seeded from tools/seeds/*.py and confirms each planted bug in a scratch copy of /repo.

usage: mkseeds.py [-c] [id...]     -c: also run the property's check against each
Each seeds file defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], pkg, demo (Go test body), needs, breaks.
"""
import sys, os, subprocess, json, shutil, glob, tempfile, runpy

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# runs the demonstration as a test of the package, laid over /repo
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
pkg=%s
dir=$PWD/$pkg
{
  printf '{"Replace": {'
  for f in "$dir"/*_test.go; do [ -e "$f" ] && printf '"%%s": "", ' "$f"; done
  printf '"%%s": "%%s"}}' "$dir/zz_demo_test.go" "$here/demo_test.go.txt"
} > "$tmp/overlay.json"
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 250 go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestDemo$' ./$pkg
'''

XCF = DEMO.replace('GOFLAGS=', """{
  echo 'module vimagination.zapto.org/limage'
  echo 'go 1.19'
  for m in byteio memio parser; do
    mkdir "$tmp/$m"
    echo "module vimagination.zapto.org/$m" > "$tmp/$m/go.mod"
    cp "$here/$m.go.txt" "$tmp/$m/$m.go"
    echo "require vimagination.zapto.org/$m v1.0.0"
    echo "replace vimagination.zapto.org/$m => $tmp/$m"
  done
} > "$tmp/go.mod"
GOFLAGS=""").replace('go test ', 'go test -modfile "$tmp/go.mod" ')

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    args = sys.argv[1:]
    check = '-c' in args
    only = [a for a in args if not a.startswith('-')]
    seeds = []
    for f in sorted(glob.glob(ROOT + '/tools/seeds/*.py')):
        seeds += runpy.run_path(f)['SEEDS']
    bad = []
    for s in seeds:
        if only and s['id'] not in only:
            continue
        scratch = tempfile.mkdtemp(prefix='seed')
        try:
            repo = scratch + '/repo'
            sh('git clone -q /repo ' + repo, '/')
            d = ROOT + '/seeded/' + s['id']
            os.makedirs(d, exist_ok=True)
            for f, old, new in s['edits']:
                t = open(repo + '/' + f).read()
                if t.count(old) != 1:
                    print(s['id'], 'edit does not match once:', f, t.count(old)); bad.append(s['id']); break
                open(repo + '/' + f, 'w').write(t.replace(old, new))
            else:
                diff = sh('git diff', repo).stdout
                open(d + '/patch.diff', 'w').write(diff)
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                if 'sh' in s:
                    open(d + '/demo.sh', 'w').write(s['sh'])
                else:
                    open(d + '/demo.sh', 'w').write((XCF if s['pkg'] == 'xcf' else DEMO) % s['pkg'])
                    if s['pkg'] == 'xcf':
                        for m in ('byteio', 'memio', 'parser'):
                            shutil.copy(ROOT + '/stubs/%s/%s.go' % (m, m), d + '/%s.go.txt' % m)
                    open(d + '/demo_test.go.txt', 'w').write(s['demo'])
                for n, c in s.get('files', {}).items():
                    open(d + '/' + n, 'w').write(c)
                os.chmod(d + '/demo.sh', 0o755)
                b = sh('go build . ./internal ./lcolor ./ora && gofmt -e xcf/*.go >/dev/null && go test -vet=off -count=1 -overlay=%s ./ora' % ov(repo, scratch), repo)
                with_ = sh('bash ' + d + '/demo.sh', repo)
                sh('git checkout -q -- .', repo)
                without = sh('bash ' + d + '/demo.sh', repo)
                ok = b.returncode == 0 and with_.returncode != 0 and '--- FAIL' in with_.stdout + ('--- FAIL' if 'sh' in s else '') and without.returncode == 0
                print(s['id'], s['property'], 'OK' if ok else 'BAD build=%d with=%d without=%d' % (b.returncode, with_.returncode, without.returncode))
                if not ok:
                    bad.append(s['id'])
                    print((b.stdout if b.returncode else '') + '\nWITH\n' + with_.stdout[-1500:] + '\nWITHOUT\n' + without.stdout[-1500:])
                elif check:
                    sh('git apply ' + d + '/patch.diff', repo)
                    c = sh('%s/bin/govc -repo %s check %s' % (ROOT, repo, s['property']), ROOT)
                    print('   exit', c.returncode, c.stdout.strip()[:600].replace('\n', '\n   '))
        finally:
            shutil.rmtree(scratch)
    print('bad:', bad)

def ov(repo, scratch):
    p = scratch + '/ov.json'
    json.dump({'Replace': {repo + '/ora/encode_test.go': ''}}, open(p, 'w'))
    return p

main()
