#!/usr/bin/env python3
"""Makes /verif/seeded from seeds.py: each bug is tried in a scratch copy of
/repo, and kept if it builds, passes the stable tests, and its demonstration
tells it from the original. With -run, also runs the checks on it."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
sys.path.insert(0, here)
from seeds import SEEDS
DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of /repo's package %(pkg)s.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
repo="$PWD"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here/go.mod.txt" "$t/freetype.mod"
cp "$here/go.sum.txt" "$t/freetype.sum"
r=""
for f in "$here"/*_test.go.txt; do
	b=$(basename "$f" .txt)
	cp "$f" "$t/$b"
	r="$r, \\"$repo/%(pkg)s/zz_$b\\": \\"$t/$b\\""
done
echo "{\\"Replace\\": {\\"$repo/go.mod\\": \\"$t/freetype.mod\\"$r}}" > "$t/overlay.json"
GOFLAGS="-modfile=$t/freetype.mod -overlay=$t/overlay.json -buildvcs=false" timeout 250 go test -vet=off -count=1 -run '^TestZZDemo$' "./%(pkg)s"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    only = [a for a in sys.argv[1:] if not a.startswith('-')]
    for s in SEEDS:
        if only and s['id'] not in only: continue
        d = f"{verif}/seeded/{s['id']}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        pk = {'raster':'raster_test','truetype':'truetype_test','.':'freetype_test'}[s['pkg']]
        open(d+'/demo_test.go.txt','w').write('package '+pk+'\n'+s['test'])
        if s.get('helper', True): open(d+'/helper_test.go.txt','w').write(open(here+'/helper.go.txt').read().replace('PKG',pk))
        open(d+'/demo.sh','w').write(DEMO%s); os.chmod(d+'/demo.sh',0o755)
        for x in ('mod','sum'): shutil.copy(f'{verif}/engine/ft/freetype.{x}', f'{d}/go.{x}.txt')
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(d+'/meta.json','w'), indent=1)
        t = tempfile.mkdtemp(prefix='seed'); r = t+'/repo'
        try:
            sh(f'git -C /repo archive --prefix=repo/ HEAD | tar x -C {t}')
            ok0 = sh(f'bash {d}/demo.sh', cwd=r)
            for f,a,b in s['edits']:
                x = open(f'{r}/{f}').read()
                assert x.count(a)==1, (s['id'], f, x.count(a), a)
                open(f'{r}/{f}','w').write(x.replace(a,b))
            out=''
            for f in sorted({e[0] for e in s['edits']}):
                p = sh(f'diff -u --label a/{f} --label b/{f} /repo/{f} {r}/{f}')
                out += f'diff --git a/{f} b/{f}\n'+p.stdout
            open(d+'/patch.diff','w').write(out)
            g = sh(f'git -C /repo apply --check {d}/patch.diff')
            # does it change lines of the original repository?
            ours = False
            for l in out.splitlines():
                if l.startswith('+++ '): cur = l[6:]
                if l.startswith('@@'): ln = int(l.split()[1].split(',')[0][1:])-1
                elif l[:1] in ' -' and not l.startswith('---'):
                    ln += 1
                    if l[0] == '-' and not sh(f'git -C /repo blame -s -L {ln},{ln} HEAD -- {cur}').stdout.startswith('^'): ours = True
            if ours: print('   changes lines of our commits', s['id'])
            ok1 = sh(f'bash {d}/demo.sh', cwd=r)
            # stable tests in the copy
            env = dict(os.environ)
            ov = f'{t}/ov.json'; json.dump({'Replace':{f'{r}/go.mod':'/opt/vp/mod/freetype.mod'}}, open(ov,'w'))
            b = sh(f'. /opt/vp/env.sh; export GOFLAGS="-modfile=/opt/vp/mod/freetype.mod -overlay={ov} -buildvcs=false"; go build ./... && go build -tags example ./... && go test -vet=off -count=1 -v ./... && go test -vet=off -run ^$ -bench . -benchtime 1x ./...', cwd=r)
            tests = [l for l in b.stdout.splitlines() if l.startswith('--- ') and 'PASS' in l]
            good = ok0.returncode==0 and ok1.returncode!=0 and b.returncode==0 and g.returncode==0
            print(s['id'], 'OK' if good else 'BAD', 'orig',ok0.returncode,'bug',ok1.returncode,'tests',b.returncode,len(tests),'apply',g.returncode, flush=True)
            if not good or '-v' in sys.argv:
                print(ok0.stdout[-1500:], ok0.stderr[-800:]); print('--- with bug'); print(ok1.stdout[-1500:],ok1.stderr[-800:]); print(b.stdout[-600:] if b.returncode else '', b.stderr[-500:], g.stderr)
            if '-run' in sys.argv:
                v = sh(f'bash {verif}/check.sh {s["prop"]} -repo {r} -evidence /tmp/seed.ev' if False else f'VFIRST=1 /tmp/vengine -prop {s["prop"]} -repo {r} -budget 75 -verif /tmp/vdev', cwd=verif)
                vs=[l for l in v.stdout.splitlines() if l.startswith('VIOLATION')]
                print('   check rc',v.returncode,len(vs),'violations',(vs or [''])[0][:150], flush=True)
        finally:
            shutil.rmtree(t, ignore_errors=True)
main()
