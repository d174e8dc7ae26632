#!/usr/bin/env python3
"""mutants.py WORKERS COUNT LOG [FILE...]: applies sampled small changes (tools/mutate)
to scratch copies of /repo, keeps those which build and pass the stable tests, runs
the group's checks from a scratch copy of /verif and logs those no check notices."""
import json, os, random, subprocess, sys, threading, queue, shutil, re
N, COUNT, LOG, FILES = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
BASE = '/tmp/mut-' + os.path.basename(LOG)
GROUPS = [
 ('utils/bits/pio/', 'B03'), ('utils/bits/', 'B01 B02 H03'),
 ('format/flv/flvio/amf0', 'A01 A02 A03'), ('format/flv/flvio/amf3', 'A02 A03'), ('format/flv/flvio/amf', 'A01 A02 A03'),
 ('format/flv/', 'F01 F02 F03'),
 ('format/rtmp/handshake', 'R07'), 
 ('format/rtmp/', 'R01 R02 R03 R05 R06 R08 R09 R07 R10 R11 R12 R04 U02'),
 ('format/rtsp/sdp', 'T04 T02'), ('format/rtsp/', 'T01 T02 T03 T04 T05'),
 ('format/mp4/', 'M01 M02 M03 M04'),
 ('format/format.go', 'U02'), ('av/pktop', 'U01'),
 ('codec/h264', 'H01 H02 H03'), ('codec/aac', 'C01 C02'),
 ('cmd/avtool/pubsub', 'S01 S02 S03 S04 S06'), ('cmd/avtool/main.go', 'V06'), ('cmd/avtool/', 'V01 V02 V03 V04 V05 V06'),
]
def props(f):
    for p, l in GROUPS:
        if f.startswith(p): return l.split()
    return []
subprocess.check_call('. /opt/vp/env.sh; cd /verif && go build -o /tmp/mutate ./tools/mutate', shell=True)
allm = []
if not FILES:
    FILES = subprocess.check_output("git -C /repo ls-files '*.go' | grep -v _test.go", shell=True, text=True).split()
rng = random.Random(int(os.environ.get('SEED', '7')))
for f in FILES:
    ps = props(f)
    if not ps: continue
    l = [(f,) + tuple(x.split('\t')) for x in subprocess.check_output(['/tmp/mutate', '/repo/' + f], text=True).splitlines()]
    rng.shuffle(l)
    allm += l[:int(os.environ.get('PERFILE', '1000000'))]
rng.shuffle(allm)
done = set()
if os.path.exists(LOG):
    for x in open(LOG): done.add(tuple(x.rstrip('\n').split('\t')[1:6]))
q = queue.Queue()
for m in allm[:COUNT]:
    if (m[0], m[1], m[2], m[3], m[4]) not in done: q.put(m)
lock = threading.Lock()
def log(status, m, extra=''):
    with lock:
        with open(LOG, 'a') as f: f.write('\t'.join([status, m[0], m[1], m[2], m[3], m[4], m[5], extra]) + '\n')
def sh(cmd, cwd, t):
    p = subprocess.Popen(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return -9, ''
def worker(i):
    d = f'{BASE}/w{i}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(f'cp -a /repo {d}/repo; mkdir {d}/verif; cd /verif; git ls-files -co --exclude-standard | grep -v ^seeded/ | tar cf - -T - | tar xf - -C {d}/verif; cd {d}/verif; mkdir -p evidence replays; sed -i "s#/repo#{d}/repo#g" go.mod', shell=True)
    subprocess.check_call(f'grep -rl "/repo" {d}/verif --include=*.go --include=*.sh | xargs -r sed -i "s#/repo\\b#{d}/repo#g"', shell=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f = m[0]; p = f'{d}/repo/{f}'
        orig = open(p, 'rb').read()
        a, n = int(m[1]), int(m[2])
        open(p, 'wb').write(orig[:a] + json.loads(m[3]).encode() + orig[a+n:] if True else b'')
        try:
            rc, o = sh('go build ./...', d + '/repo', 200)
            if rc: log('nobuild', m); continue
            rc, o = sh('go test -vet=off ./format/... ./utils/... ./codec/... ./av/... 2>&1', d + '/repo', 100)
            if rc: log('tests', m); continue
            caught = None
            for id in props(f):
                rc, o = sh(f'timeout 300 ./run.sh {id}', d + '/verif', 320)
                if rc == 1 and 'VIOLATION' in o: caught = id; break
                if rc != 0: caught = f'{id}:rc={rc}'; break
            log('caught' if caught else 'SURVIVED', m, caught or '')
        finally:
            open(p, 'wb').write(orig)
            subprocess.call('rm -rf %s/verif/replays/*' % d, shell=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(BASE, ignore_errors=True)
