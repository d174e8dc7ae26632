#!/usr/bin/env python3
"""Seed (planted bug) helper: python3 tools/mkseed.py tools/seeds_X.py [id...]
Builds /verif/seeded/<id>/ from edit descriptions and verifies each one in a
scratch copy: builds, stable tests pass, demo passes unpatched / fails patched."""
import json, os, subprocess, sys, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
def seed(id, prop, edits, pkg, test, needs, breaks, race=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, pkg=pkg, test=test, needs=needs, breaks=breaks, race=race))
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Run with cwd = the repository.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$d/demo.go.txt" "$t/zz_demo_test.go"
printf 'package main\\n' > "$t/empty_test.go"
cat > "$t/overlay.json" <<EOT
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$t/zz_demo_test.go"%(extra)s}}
EOT
timeout 250 go test %(race)s-vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run TestDemo ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    src = sys.argv[1]; want = set(sys.argv[2:])
    exec(compile(open(src).read(), src, 'exec'), globals())
    scratch = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.check_call(['cp', '-a', '/repo', scratch + '/r'])
        r = scratch + '/r'
        base = sorted(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        for s in SEEDS:
            if want and s['id'] not in want: continue
            d = os.path.join(ROOT, 'seeded', s['id'])
            subprocess.check_call('git checkout -q -- . && git clean -fdq', shell=True, cwd=r)
            bad = None
            for f, old, new in s['edits']:
                p = os.path.join(r, f); t = open(p).read()
                if t.count(old) != 1: bad = f'{f}: old text occurs {t.count(old)} times'; break
                open(p, 'w').write(t.replace(old, new))
            if bad: print(s['id'], 'BAD', bad); continue
            os.makedirs(d, exist_ok=True)
            diff = sh('git diff', r).stdout
            open(d + '/patch.diff', 'w').write(diff)
            extra = ''
            if s['pkg'] == 'cmd/avtool': extra = ', "$PWD/cmd/avtool/rec_test.go": "$t/empty_test.go"'
            open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg'], extra=extra, race='-race ' if s['race'] else ''))
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.go.txt', 'w').write(s['test'])
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            b = sh('. /opt/vp/env.sh; go build ./... && go vet ./... 2>&1 | tail -3', r)
            env = '. /opt/vp/env.sh; '
            b = sh(env + 'go build ./...', r)
            if b.returncode: print(s['id'], 'BUILD FAILS', b.stdout[-800:]); continue
            t = sh(env + 'go test ./format/... ./utils/... ./codec/... ./av/... 2>&1 | grep -v "no test files"', r)
            testok = 'FAIL' not in t.stdout
            dp = sh(d + '/demo.sh', r)
            subprocess.check_call('git checkout -q -- .', shell=True, cwd=r)
            dc = sh(d + '/demo.sh', r)
            ok = testok and dp.returncode != 0 and dc.returncode == 0
            # a patched run that fails to compile is no demonstration
            if 'build failed' in dp.stdout or 'build failed' in dc.stdout: ok = False
            print(s['id'], s['prop'], 'OK' if ok else 'BAD', f'tests={testok} demo_patched={dp.returncode} demo_clean={dc.returncode}')
            if not ok: print(t.stdout[-600:] if not testok else '', dp.stdout[-1500:], '---', dc.stdout[-1500:])
    finally:
        shutil.rmtree(scratch)
main()
