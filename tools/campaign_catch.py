#!/usr/bin/env python3
"""Third step of the campaign: are the mutants that behave differently caught by the checks whose cases differ?"""
import json, sys, os, time, random
SECS = float(sys.argv[1]); sys.argv = ['x', 'none']
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'campaign.py')).read().split('FILES = []')[0])
d = copy('k'); v = M + '/verifk'
shutil.rmtree(v, ignore_errors=True); os.makedirs(v)
shutil.copytree(ROOT + '/harness', v + '/harness'); shutil.copy(ROOT + '/check.sh', v)
p = v + '/harness/go.mod'; t = open(p).read(); open(p, 'w').write(t.replace('=> /repo', '=> ' + d))
f = open(M + '/catch.jsonl', 'a'); end = time.time() + SECS; idle = 0
env = dict(ENV, VERIF_BUDGET='25s')
while time.time() < end:
    done = load('catch.jsonl')
    todo = [m for m in load('diff.jsonl').values() if m['key'] not in done and m['Func'] != 'isImportantString' and any(k in m['diff']['counts'] for k in ('out', 'map', 'loc', 'crash'))]
    if not todo: time.sleep(20); continue
    random.shuffle(todo)
    for m in todo[:20]:
        c = m['diff']['counts']; tot = collections.Counter()
        for k, w in (('out', 10), ('map', 3), ('loc', 1)):
            for ck, n in c.get(k, {}).items():
                if k == 'out' and ck in ('C17', 'C19', 'C05'): w = .1
                if k == 'map' and ck not in ('C17',) : continue
                if k == 'loc' and ck != 'C19': continue
                tot[ck] += w * n
        order = [ck for ck, n in tot.most_common(4)]
        # C05, C07 and C13 compare executions with each other; C06 needs invalid output
        for weak in ('C20', 'C14'): 
            if weak in order: order.remove(weak); order.append(weak)
        if 'crash' in c: order = ['C22', 'C05', 'C01', 'C15']
        if 'C22' in tot and 'C22' not in order: order.append('C22')
        apply(d, m); t0 = time.time(); res = 'SURVIVED'; log = []
        for ck in order:
            rc, out = run(f'{v}/check.sh {ck} quick', v, 300, env)
            log.append(f'{ck}:{rc}')
            if rc == 1 and 'VIOLATION property=' + ck in out: res = ck; break
        restore(d, m)
        m['result'] = res; m['log'] = log; m['secs'] = round(time.time() - t0)
        f.write(json.dumps(m) + '\n'); f.flush()
        print(m['key'], m['File'], m['Line'], m['Func'], m['Desc'].replace('\n', ' '), '->', res, ' '.join(log), m['secs'], flush=True)
