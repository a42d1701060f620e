#!/usr/bin/env python3
"""Mutation campaign: which small changes of /repo that pass its tests do the checks notice?
usage: campaign.py tests WORKERS FILE...   mutates FILE (relative to /repo) in scratch copies, keeps what passes the tests
       campaign.py checks SECONDS BUDGET|full [FILE...]  runs the checks against what was kept, until the first catches it
State is kept in /tmp/mut; nothing in /repo or /verif is changed."""
import collections, hashlib, json, os, queue, shutil, subprocess, sys, threading, time
M = '/tmp/mut'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='0', GOCACHE=M + '/cache', VERIF_EVIDENCE_DIR=M + '/evidence', VERIF_SEED='1', VERIF_TIER='quick', HOME='/root', GOPATH='/root/go')
PRIO = {
 'api.go': 'C14 C13 C20 C24 C15 C23 C01 C07 C04',
 'internal/lexer/lexer.go': 'C22 C05 C19 C03 C02 C06 C17 C01',
 'internal/parser/parser.go': 'C22 C04 C19 C05 C02 C03 C17 C13 C06 C01 C12',
 'internal/parser/selectors.go': 'C22 C02 C19 C05 C08 C17 C06 C01',
 'internal/printer/printer.go': 'C17 C03 C02 C04 C06 C22 C12 C11 C09',
 'internal/printer/sourcemaps.go': 'C18 C17 C21 C24',
 'internal/transformer/transformer.go': 'C12 C10 C09 C08 C11 C13 C07 C19 C20 C06 C01',
 'resolver/node_resolver.go': 'C16 C20 C13 C24 C01',
 'esbuildplugin/plugin.go': 'C21',
 'internal/logging/logging.go': 'C19 C24 C21',
 'internal/sources/source.go': 'C19 C17 C21 C24',
 'internal/ast/walk.go': 'C19 C17 C13',
}

TESTENV = dict(ENV, GOMAXPROCS='3')

def run(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -1, 'timeout'

def key(m): return hashlib.sha1(json.dumps([m['File'], m['Start'], m['End'], m['New'], m['Desc']]).encode()).hexdigest()[:10]

def load(name):
    r = {}
    if os.path.exists(f'{M}/{name}'):
        for l in open(f'{M}/{name}'):
            o = json.loads(l); r[o['key']] = o
    return r

def copy(n):
    d = f'{M}/r{n}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(M, exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    return d

def apply(d, m):
    src = open('/repo/' + m['File'], 'rb').read()
    open(f"{d}/{m['File']}", 'wb').write(src[:m['Start']] + m['New'].encode() + src[m['End']:])

def restore(d, m): shutil.copy('/repo/' + m['File'], f"{d}/{m['File']}")

def tests(workers, files):
    done = load('tests.jsonl')
    subprocess.run('cd tools/mutate && go build -o /tmp/mutate .', cwd=ROOT, shell=True, check=True, env=ENV)
    out = subprocess.run(['/tmp/mutate'] + files, cwd='/repo', capture_output=True, text=True, check=True).stdout
    q = queue.Queue()
    for l in out.splitlines():
        m = json.loads(l); m['key'] = key(m)
        if m['key'] not in done: q.put(m)
    print(q.qsize(), 'mutants', flush=True)
    lock = threading.Lock(); f = open(f'{M}/tests.jsonl', 'a')
    def work(n):
        d = copy(n)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            apply(d, m)
            rc, out = run('go build ./...', d, 120, TESTENV)
            if rc: s = 'compile'
            else:
                first = './' + os.path.dirname(m['File'])
                if first not in ('./internal/lexer', './internal/transformer', './internal/printer', './resolver', './'): first = './internal/printer'
                rc, out = run(f'go test -vet=off -count=1 -timeout 20s {first}', d, 60, TESTENV)
                if rc == 0: rc, out = run('go test -vet=off -count=1 -timeout 20s . ./resolver ./internal ./internal/lexer ./internal/parser ./internal/printer ./internal/transformer', d, 60, TESTENV)
                s = 'passes' if rc == 0 else 'killed'
            restore(d, m)
            m['status'] = s
            with lock: f.write(json.dumps(m) + '\n'); f.flush()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    c = collections.Counter(m['status'] for m in load('tests.jsonl').values())
    print(c)

def checks(limit, budget, workdir):
    env = dict(ENV, **({'VERIF_BUDGET': budget} if budget else {}))
    done = load('checks.jsonl')
    if not budget: done = {k: m for k, m in done.items() if m['result'] != 'SURVIVED' or not m.get('budget')}
    todo = [m for m in load('tests.jsonl').values() if m['status'] == 'passes' and m['key'] not in done and (not FILES or m['File'] in FILES)]
    todo = [m for m in todo if not any(s in open('/repo/' + m['File']).read().split('\n')[m['Line'] - 1] and '-> ""' in m['Desc'] for s in ('oops.', 'rrorf', 'Warnf', 'anic', 'Unexpected', 'fmt.'))]
    # a round robin over functions, so that a stopped campaign has seen all of them
    byf = collections.OrderedDict()
    for m in todo: byf.setdefault((m['File'], m['Func']), []).append(m)
    order = []
    while byf:
        for k in list(byf):
            order.append(byf[k].pop(0))
            if not byf[k]: del byf[k]
    d = copy('c' + workdir); v = M + '/verif' + workdir
    shutil.rmtree(v, ignore_errors=True); os.makedirs(v)
    shutil.copytree(ROOT + '/harness', v + '/harness'); shutil.copy(ROOT + '/check.sh', v); shutil.copy(ROOT + '/known_findings.json', v)
    p = v + '/harness/go.mod'; t = open(p).read(); open(p, 'w').write(t.replace('=> /repo', '=> ' + d))
    f = open(f'{M}/checks.jsonl', 'a'); end = time.time() + limit
    print(len(order), 'to check', flush=True)
    for i, m in enumerate(order):
        if time.time() > end: break
        apply(d, m); t0 = time.time(); res = 'SURVIVED'; log = []
        for c in PRIO[m['File']].split()[:TOP]:
            rc, out = run(f'{v}/check.sh {c} quick', v, 300, env)
            log.append(f'{c}:{rc}')
            if rc == 1 and 'VIOLATION property=' + c in out: res = c; break
        restore(d, m)
        m['result'] = res; m['log'] = log; m['budget'] = budget; m['secs'] = round(time.time() - t0)
        f.write(json.dumps(m) + '\n'); f.flush()
        print(i, m['key'], m['File'], m['Line'], m['Func'], m['Desc'].replace('\n', ' '), '->', res, m['secs'], flush=True)

FILES = []
TOP = int(os.environ.get('TOP', '99'))
if sys.argv[1] == 'tests': tests(int(sys.argv[2]), sys.argv[3:])
else:
    FILES = sys.argv[4:]
    checks(float(sys.argv[2]), '' if sys.argv[3] == 'full' else sys.argv[3], '-'.join(f.replace('/', '_') for f in FILES))
