#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools/seeds/*.py and confirms each planted bug in a scratch copy.
usage: seedtool.py [-c] [id...]   (-c: also run the property's quick check against the bug)"""
import glob, json, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = open(os.path.join(ROOT, 'tools', 'seeds', 'demolib.txt')).read()
DEMO = '''#!/bin/bash
# Exit 0 if the behaviour is right, 1 otherwise. Run in the root of the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
export GOPATH=${GOPATH:-$HOME/go} GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$here" >"$work/overlay.json"
@ENV@timeout 250 go run@FLAGS@ -overlay "$work/overlay.json" ./zz_demo "$work"
'''

def load():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'seeds', '*.py'))):
        ns = {}
        exec(open(f).read(), ns)
        for s in ns['SEEDS']:
            assert s['id'] not in seeds, s['id']
            seeds[s['id']] = s
    return seeds

def sh(cmd, cwd, timeout=400, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout

def make(s, scratch):
    d = os.path.join(ROOT, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh('git checkout -q -- . && git clean -fdq', scratch)
    for path, old, new in s['edits']:
        p = os.path.join(scratch, path); t = open(p).read()
        if t.count(old) != 1: return 'edit does not match once (%d): %s %r' % (t.count(old), path, old[:80])
        open(p, 'w').write(t.replace(old, new))
    files = sorted({e[0] for e in s['edits']})
    rc, out = sh('gofmt -l ' + ' '.join(files), scratch)
    if out.strip(): sh('gofmt -w ' + ' '.join(files), scratch)
    rc, diff = sh('git diff', scratch)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    body = s['demo']
    imports = set(re.findall(r'\b(fmt|io|os|strings|cssc|transforms|resolver|filepath|regexp|json|base64|time|sync|printer|runtime|parser|lexer|sources|logging|ast|transformer|errors|api|esbuildplugin)\.[A-Z]', LIB + body)) | {'os'}
    if 'api.' not in body: imports.discard('api')
    paths = {'cssc': 'github.com/stephen/cssc', 'transforms': 'github.com/stephen/cssc/transforms', 'resolver': 'github.com/stephen/cssc/resolver',
        'filepath': 'path/filepath', 'json': 'encoding/json', 'base64': 'encoding/base64', 'api': 'github.com/evanw/esbuild/pkg/api', 'esbuildplugin': 'github.com/stephen/cssc/esbuildplugin'}
    for n in 'printer parser lexer sources logging ast transformer'.split(): paths[n] = 'github.com/stephen/cssc/internal/' + n
    src = 'package main\n\nimport (\n' + ''.join('\t%s "%s"\n' % (i, paths.get(i, i)) for i in sorted(imports)) + ')\n\n' + body.strip() + '\n\n' + LIB
    g = os.path.join(d, 'demo.go'); open(g, 'w').write(src); sh('gofmt -w ' + g, scratch)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('@FLAGS@', s.get('flags', '')).replace('@ENV@', s.get('env', '') ))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # Confirm.
    rc, out = sh('bash -c ". /opt/vp/env.sh; go vet ./... && go build ./..."', scratch)
    rc, out = sh('bash -c ". /opt/vp/env.sh; go build ./..."', scratch)
    if rc: return 'does not build: ' + out[-800:]
    rc, out = sh('bash -c ". /opt/vp/env.sh; go test ./... 2>&1 | grep -v no.test.files"', scratch)
    if 'FAIL' in out: return 'tests fail: ' + out[-1200:]
    rc, out = sh('bash %s/demo.sh' % d, scratch)
    if rc == 0: return 'demo passes with the bug: ' + out[-500:]
    if 'WRONG' not in out and 'DATA RACE' not in out and not s.get('crash'): return 'demo fails to run with the bug: ' + out[-1500:]
    bug = out
    sh('git checkout -q -- .', scratch)
    rc, out = sh('bash %s/demo.sh' % d, scratch)
    if rc: return 'demo fails without the bug: ' + out[-1500:]
    return None

def main():
    args = sys.argv[1:]; check = '-c' in args; args = [a for a in args if a != '-c']
    seeds = load(); ids = args or list(seeds)
    scratch = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        sh('cp -a /repo/. %s' % scratch, '/')
        for i in ids:
            s = seeds[i]; err = make(s, scratch)
            print(i, s['property'], 'BAD ' + err if err else 'ok', flush=True)
            if err or not check: continue
            rc, out = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (ROOT, i), '/')
            assert rc == 0, out
            try:
                for prop in [s['property']] + s.get('also', []):
                    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE_DIR='/tmp/ev')
                    rc, out = sh('./check.sh %s quick' % prop, ROOT, 900, env)
                    v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                    print('   ', prop, 'caught' if rc == 1 and v else 'MISSED rc=%d' % rc, (v or [''])[0][:140], flush=True)
            finally:
                sh('git -C /repo checkout -- .', '/')
    finally:
        shutil.rmtree(scratch)
main()
