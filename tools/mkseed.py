#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: make planted bugs from specs and confirm them in a scratch copy.

SPEC.py defines SEEDS, a list of dicts: id, property, needs, what_it_breaks,
edits [(file, old, new)], pkg (directory of the demo test), test (Go test source).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
# Runs with cwd at the repository; nonzero when the behaviour is broken.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/tmp"
export TMPDIR="$t/tmp"
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$d/demo_test.go.txt" > "$t/o.json"
timeout 120 go test -overlay "$t/o.json" -vet=off -count=1 -timeout 100s -run '^TestZZDemo$' ./%s
'''

def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True)

def one(s):
    tmp = tempfile.mkdtemp(prefix='seed_')
    repo = tmp + '/repo'
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    out = '/verif/seeded/' + s['id']
    try:
        stage = tmp + '/demo'
        os.makedirs(stage)
        if s.get('demo'):
            open(stage + '/demo.sh', 'w').write(s['demo'])
        else:
            open(stage + '/demo.sh', 'w').write(DEMO % (s['pkg'], s['pkg']))
            open(stage + '/demo_test.go.txt', 'w').write(s['test'].strip() + '\n')
        r = sh('bash %s/demo.sh' % stage, repo)
        if r.returncode:
            return 'demo fails on the unchanged tree:\n' + (r.stdout + r.stderr)[-1500:]
        for f, old, new in s['edits']:
            p = repo + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return '%s: %d matches of %r' % (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        r = sh('gofmt -l $(git diff --name-only)', repo)
        if r.stdout.strip():
            return 'gofmt: ' + r.stdout
        r = sh('go build ./... && go test -vet=off -count=1 ./basic/... ./dos3 ./prodos ./supermon ./disk ./types ./cmd ./helpers', repo)
        if r.returncode:
            return 'build or tests fail:\n' + (r.stdout + r.stderr)[-1500:]
        r = sh('bash %s/demo.sh' % stage, repo)
        if r.returncode == 0:
            return 'demo passes with the change'
        if 'build failed' in r.stdout + r.stderr or 'setup failed' in r.stdout + r.stderr:
            return 'demo does not build:\n' + (r.stdout + r.stderr)[-1500:]
        why = [l.strip() for l in (r.stdout + r.stderr).splitlines() if l.strip()][:3]
        diff = sh('git diff', repo).stdout
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(stage, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(out + '/meta.json', 'w'), indent=1)
        open(out + '/meta.json', 'a').write('\n')
        return 'kept; demo says: ' + ' | '.join(why)[:200]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    print(s['id'], one(s), flush=True)
