#!/usr/bin/env python3
"""Second step of the campaign: which mutants behave differently on a corpus of cases (dumped by the checks)?"""
import json, sys, os, time
sys.argv = ['x', 'none']
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'campaign.py')).read().split('FILES = []')[0])
d = copy('d'); D = M + '/differ'
t = open(D + '/go.mod').read().split('replace')[0]
open(D + '/go.mod', 'w').write(t + 'replace github.com/stephen/cssc => ' + d + '\n')
rc, out = run('go build -o d . && ./d base && ./d cmp', D, 300); print(rc, out)
f = open(M + '/diff.jsonl', 'a'); n = 0
while True:
    done = load('diff.jsonl')
    todo = [m for m in load('tests.jsonl').values() if m['status'] == 'passes' and m['key'] not in done and m['File'] not in ('api.go', 'internal/ast/walk.go', 'esbuildplugin/plugin.go', 'resolver/node_resolver.go')]
    if not todo:
        n += 1
        if n > 30: break
        time.sleep(20); continue
    n = 0; import random; random.shuffle(todo)
    for m in todo[:100]:
        apply(d, m)
        rc, out = run('go build -o d . && timeout 20 ./d cmp', D, 100)
        restore(d, m)
        try: m['diff'] = json.loads(out)
        except Exception: m['diff'] = {'counts': {'crash': {}}, 'examples': {'crash': out[-300:]}}
        f.write(json.dumps(m) + '\n'); f.flush()
