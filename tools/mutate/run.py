#!/usr/bin/env python3
"""run.py MUTANTS OUT LANES FIRST STEP CHECK...: try mutants out (every STEP-th from FIRST).

For each mutant that compiles and passes the stable tests, the quick tiers of the
checks are run one after another until one reports a violation;
LIMIT=seconds ends each early, for a first pass. Works on
copies under /tmp/mut; nothing in /repo changes."""
import json, os, shutil, subprocess, sys, threading, queue
mutants, out, lanes, first, step = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
checks = sys.argv[6:]
limit = os.environ.get('LIMIT') # seconds per check, for a first pass
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', CGO_ENABLED='0')
if lanes > 1: env['GOMAXPROCS'] = '2'
lines = [l.rstrip('\n').split('\t') for l in open(mutants)][first::step]
q = queue.Queue()
for l in lines: q.put(l)
lock = threading.Lock(); log = open(out, 'a')
def run(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, 'timeout'
def lane(k):
    d = f'/tmp/mut/{k}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/verif/evidence')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    shutil.copytree('/verif/mc', d + '/verif/mc')
    for f in ('check.sh', 'known_findings.txt', 'properties.jsonl', 'MANIFEST.json'): shutil.copy('/verif/' + f, d + '/verif/')
    p = d + '/verif/mc/go.mod'; s = open(p).read().replace('=> /repo', f'=> {d}/repo'); open(p, 'w').write(s)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        path, a, b, repl, what = m[0], int(m[1]), int(m[2]), json.loads(m[3]), m[4]
        full = f'{d}/repo/{path}'; src = open(full, 'rb').read()
        open(full, 'wb').write(src[:a] + repl.encode() + src[b:])
        verdict = None
        rc, o = run('go build . ./internal/concrete/...', d + '/repo', 120)
        if rc: verdict = 'nocompile'
        else:
            rc, o = run('go test . ./internal/concrete/bit ./internal/concrete/character ./internal/concrete/class ./internal/concrete/phrase ./internal/concrete/word', d + '/repo', 60)
            if rc: verdict = 'tests'
        if not verdict:
            if limit: run('./check.sh build', d + '/verif', 300)
            for c in checks:
                if limit: rc, o = run(f'./.build/mc run {c} quick {limit} {d}/verif', d + '/verif', 300)
                else: rc, o = run(f'./check.sh {c} quick', d + '/verif', 1200)
                if rc == 1 and 'VIOLATION' in o: verdict = 'killed ' + c; break
                if rc != 0: verdict = f'rc{rc} {c} ' + o[-200:].replace('\n', ' '); break
        open(full, 'wb').write(src)
        with lock:
            log.write('\t'.join([verdict or 'SURVIVED'] + m) + '\n'); log.flush()
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
for t in ts: t.start()
for t in ts: t.join()
