#!/usr/bin/env python3
"""mkseed.py SPEC.py : plants the bugs of a spec file in a scratch copy of /repo and, for each one that
builds, passes the stable tests and whose demonstration fails with it and passes without it,
writes /verif/seeded/<id>/. SPEC.py defines B = [dict(id, prop, pkg, edits=[(file, old, new)...], demo, needs, breaks)]."""
import sys, os, subprocess, shutil, json, tempfile, runpy, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOENV='off', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod', GOSUMDB='off')
DEMO = '''#!/bin/bash
# Run with cwd at the repository: exit 0 if the property holds in this demonstration.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod
printf '{"Replace":{"%s/PKGDIRzz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 60s -overlay "$t/o.json" -run '^TestDemo$' ./PKGDIR
'''
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def failed(repo):
    r = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '100s', './...'], cwd=repo, env=ENV, capture_output=True, text=True)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'):
            ok.add(e['Package'] + '/' + e['Test'])
    return sorted(stable - ok)

def one(b):
    t = tempfile.mkdtemp(prefix='seed.')
    try:
        repo = t + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        for f, old, new in b['edits']:
            s = open(repo + '/' + f).read()
            if s.count(old) != 1: return b['id'], 'EDIT: %d matches of %r' % (s.count(old), old)
            open(repo + '/' + f, 'w').write(s.replace(old, new))
        for f in {e[0] for e in b['edits']}:
            subprocess.run(['gofmt', '-w', f], cwd=repo, env=ENV)
        r = subprocess.run(['go', 'build', './...'], cwd=repo, env=ENV, capture_output=True, text=True)
        if r.returncode: return b['id'], 'BUILD: ' + r.stderr
        f = failed(repo) or failed(repo)
        if f: return b['id'], 'TESTS fail: ' + ' '.join(f)
        diff = subprocess.run(['git', 'diff', '--no-color'], cwd=repo, capture_output=True, text=True).stdout
        if 'generic' == b['pkg'] or b['pkg'] == '.': pd = ''
        else: pd = b['pkg'] + '/'
        out = V + '/seeded/' + b['id']
        tmp = t + '/d'; os.mkdir(tmp)
        open(tmp + '/demo.sh', 'w').write(DEMO.replace('PKGDIR', pd)); os.chmod(tmp + '/demo.sh', 0o755)
        name = 'generic' if pd == '' else b['pkg']
        open(tmp + '/demo_test.go', 'w').write('package %s_test\n\n%s' % (name, b['demo'].lstrip()))
        subprocess.run(['gofmt', '-w', tmp + '/demo_test.go'], env=ENV)
        r1 = subprocess.run(['bash', tmp + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        r2 = subprocess.run(['bash', tmp + '/demo.sh'], cwd=repo, capture_output=True, text=True)
        if r1.returncode: return b['id'], 'DEMO fails on the unchanged tree: ' + r1.stdout[-1500:] + r1.stderr
        if not r2.returncode: return b['id'], 'DEMO passes with the bug'
        if 'build failed' in r2.stdout: return b['id'], 'DEMO build ' + r2.stdout
        open(tmp + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        return b['id'], 'ok'
    finally:
        shutil.rmtree(t, ignore_errors=True)

if __name__ == '__main__':
    bs = runpy.run_path(sys.argv[1])['B']
    if len(sys.argv) > 2: bs = [b for b in bs if b['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, bs): print(i, r, flush=True)
