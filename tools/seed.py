"""seed.py SPEC.py...: make /verif/seeded/<id> from a list of dicts (id, property, edits, demo, needs, breaks).

Applies each change to /repo, runs the stable tests and the demonstration, undoes it, and
keeps the change if the tests pass and the demonstration tells the two trees apart."""
import json
import os
import shutil
import subprocess
import sys

REPO = '/repo'
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0 on a tree that keeps the property; run with cwd = the repository
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
parse-proof-of-concept = { path = "$repo" }
[workspace]
EOF
cd "$t"
ulimit -v 8388608
cargo build -q --offline --target-dir "$t/target" || exit 3
timeout 60 "$t/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(s):
    d = os.path.join(OUT, s['id'])
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'repo is not clean'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(d + '/demo.rs', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO.replace('cargo build', 'cargo build --release').replace('/debug/', '/release/') if s.get('release') else DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    base = sh('bash %s/demo.sh' % d, cwd=REPO)
    if base.returncode:
        return 'DEMO FAILS ON THE UNCHANGED TREE\n' + base.stdout[-1500:]
    try:
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(old) != 1:
                return 'PATTERN %r occurs %d times' % (old[:60], t.count(old))
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(subprocess.run('git -C %s diff' % REPO, shell=True, stdout=subprocess.PIPE, text=True).stdout)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            return 'DOES NOT BUILD\n' + b.stdout[-1500:]
        sh('bash /opt/vp/test.sh /tmp/seed-out.json')
        o = json.load(open('/tmp/seed-out.json'))
        want = json.load(open('/opt/vp/BASELINE.json'))
        passed = set(o['passed'])
        miss = [x for x in want.get('stable', want.get('passed', want.get('tests'))) if x not in passed]
        if miss:
            return 'TESTS FAIL: %s' % miss[:5]
        m = sh('bash %s/demo.sh' % d, cwd=REPO)
        if m.returncode in (0, 3):
            return 'DEMO GIVES %d WITH THE CHANGE\n%s' % (m.returncode, m.stdout[-1500:])
        caught = []
        for pid in s.get('checks', [s['property']]):
            c = sh('python3 engine/check.py ' + pid, cwd='/verif')
            caught.append('%s=%d %s' % (pid, c.returncode, [x for x in c.stdout.split('\n') if x and x[0] != ' '][0][:150]))
        return 'ok ' + ' | '.join(caught)
    finally:
        sh('git -C %s checkout -- .' % REPO)


for a in sys.argv[1:]:
    for s in eval(open(a).read()):
        r = one(s)
        print(s['id'], r, flush=True)
        if not r.startswith('ok'):
            shutil.rmtree(os.path.join(OUT, s['id']))
sh('bash /opt/vp/build.sh')
