#!/usr/bin/env python3
"""Tries mutants of /repo against the checks: campaign.py OUT.jsonl PROCS SEED COUNT [FILE...].
Scratch work goes to /tmp. Needs /tmp/mut and /tmp/vengine."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading
out, procs, seed, count = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
files = sys.argv[5:] or ['freetype.go','raster/raster.go','raster/geom.go','raster/paint.go','raster/stroke.go','truetype/truetype.go','truetype/glyph.go','truetype/face.go','truetype/hint.go']
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
FN = {
 'raster/raster.go': {'scan':'C02 C03 C01','Add1':'C02 C03 C01','Start':'C02 C33 C10','Add2':'C05 C10 C03','Add3':'C05 C10 C03','AddPath':'C10','AddStroke':'C10 C11',
   'areaToAlpha':'C04 C02','Rasterize':'C01 C02 C03 C04','Clear':'C06 C03','SetBounds':'C06 C03 C05','findCell':'C03 C02 C01','*':'C02 C03 C06 C01'},
 'raster/geom.go': {'*':'C10 C11'},
 'raster/stroke.go': {'*':'C11'},
 'raster/paint.go': {'*':'C07 C08 C09'},
 'freetype.go': {'drawContour':'C33 C31 C32','*':'C31 C32 C30'},
 'truetype/face.go': {'drawContour':'C33 C30','GlyphBounds':'C29','GlyphAdvance':'C29','Metrics':'C29','Kern':'C29','index':'C29','*':'C30 C29 C12'},
 'truetype/glyph.go': {'loadSimple':'C18 C21 C20','loadCompound':'C19 C21 C20','*':'C20 C19 C18 C22 C21'},
 'truetype/truetype.go': {'parseCmap':'C14 C12 C13','Index':'C14 C13','parseKern':'C15 C12','Kern':'C15 C13','Name':'C17 C13','printable':'C17',
   'parseSubtables':'C14 C17 C12 C13','scale':'C16 C15','Bounds':'C16','unscaledHMetric':'C16 C13','HMetric':'C16','unscaledVMetric':'C16 C13','VMetric':'C16',
   'parseHead':'C16 C12 C20','parseHhea':'C16 C12 C29','parseMaxp':'C12 C21 C23','readTable':'C12','parse':'C12 C14 C16 C23 C20','*':'C12 C13 C16 C14'},
 'truetype/hint.go': {'mulDiv':'C24 C23','round':'C26','iupInterp':'C28','iupShift':'C28','skipInstructionPayload':'C25 C23','init':'C22 C23 C24','normalize':'C27 C23','dotProduct':'C27','move':'C27','displacement':'C27',
   'point':'C27 C23','getScaledCVT':'C27 C23 C24','setScaledCVT':'C24 C27 C23','initializeScaledCVT':'C24 C22 C27','resetTwilightPoints':'C22 C23','clearStore':'C22','*':'C24 C25 C27 C26 C28 C23 C22'},
}
OPS = [('C26',r'Round|RTG|RTHG|RTDG|RUTG|RDTG|ROFF|SROUND|S45ROUND|ROUND|NROUND'),('C25',r'IF|ELSE|EIF|JMPR|JROT|JROF|CALL|LOOPCALL|FDEF|ENDF|IDEF|NPUSH|PUSH'),
 ('C28',r'IUP'),('C24',r'DUP|POP|CLEAR|SWAP|DEPTH|CINDEX|MINDEX|ROLL|ADD|SUB|DIV|MUL|ABS|NEG|FLOOR|CEILING|MAX|MIN|LT|LTEQ|GT|GTEQ|EQ|NEQ|ODD|EVEN|AND|OR|NOT|WS|RS|WCVT|RCVT|MPPEM|MPS|GETINFO|SCANCTRL|SCANTYPE|INSTCTRL')]
def propsfor(f, fn, line):
    m = FN[f]
    if fn != 'run' or 'hint' not in f: return m.get(fn, m['*']).split()
    src = open('/repo/'+f).read().split('\n')
    i = line-1
    while i > 0 and not re.match(r'\t\tcase op', src[i]) and not src[i].startswith('func '): i -= 1
    lab = src[i]
    first = 'C27'
    for p, r in OPS:
        if re.search(r'op('+r+r')\w*\b', lab): first = p; break
    if src[i].startswith('func '): return ['C25','C23','C24']
    return [first]+[p for p in ['C27','C24','C25','C26','C23'] if p != first][:2] if first!='C27' else ['C27','C23']
jobs = []
rnd = random.Random(seed)
for f in files:
    for l in sh(f'/tmp/mut /repo/{f}').stdout.splitlines():
        n, fn, line, d = l.split('\t', 3)
        jobs.append((f, int(n), fn, int(line), d))
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d['file'], d['n']))
rnd.shuffle(jobs)
jobs = [j for j in jobs if (j[0], j[1]) not in done and j[2] not in ('String',)]
lock = threading.Lock(); left = [count]
def work(k):
    t = tempfile.mkdtemp(prefix='mutw'); r = t+'/repo'
    sh(f'git -C /repo archive --prefix=repo/ HEAD | tar x -C {t}')
    ov = t+'/ov.json'; json.dump({'Replace':{f'{r}/go.mod':'/opt/vp/mod/freetype.mod'}}, open(ov,'w'))
    vd = t+'/v'; os.mkdir(vd)
    for x in ('harness','engine','known_findings.json'): sh(f'cp -a /verif/{x} {vd}/')
    while True:
        with lock:
            if not jobs or left[0] <= 0: break
            f, n, fn, line, d = jobs.pop()
        src = open('/repo/'+f).read()
        sh(f'/tmp/mut /repo/{f} {n} {r}/{f}')
        res = {'file':f,'n':n,'fn':fn,'line':line,'d':d}
        b = sh(f'. /opt/vp/env.sh; export GOFLAGS="-modfile=/opt/vp/mod/freetype.mod -overlay={ov} -buildvcs=false"; go build ./... || exit 77; timeout 60 go test -vet=off -count=1 ./... && timeout 60 go test -vet=off -run ^$ -bench . -benchtime 1x ./...', cwd=r)
        if b.returncode == 77: res['res'] = 'nobuild'
        elif b.returncode: res['res'] = 'tests'
        else:
            with lock: left[0] -= 1
            res['res'] = 'MISSED'; res['props'] = propsfor(f, fn, line)
            for p in res['props']:
                v = sh(f'VFIRST=1 timeout 200 /tmp/vengine -prop {p} -repo {r} -verif {vd} -budget 40 -workers {max(3, 8//procs)}')
                if v.returncode == 1:
                    res['res'] = p; res['why'] = [l.strip() for l in v.stdout.splitlines() if l.startswith('  ')][:1]; break
                if v.returncode != 0: res.setdefault('odd', []).append((p, v.returncode, v.stderr[-300:]))
                nr = [l for l in v.stdout.splitlines() if 'NOT REPRO' in l or 'mismatch' in l.lower()]
                if nr: res.setdefault('nr', []).append((p, nr[:2]))
        open(f'{r}/{f}','w').write(src)
        with lock: open(out,'a').write(json.dumps(res)+'\n')
    shutil.rmtree(t, ignore_errors=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(procs)]
[x.start() for x in ts]; [x.join() for x in ts]
