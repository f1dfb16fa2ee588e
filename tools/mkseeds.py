"""Writes seeded/<id>/ from the table of tools/seeds.py and confirms each change against the tests and its demo.

usage: python3 tools/mkseeds.py [ID...]    (needs a clean /repo; leaves it clean)
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds import SEEDS

BASE = json.load(open('/opt/vp/BASELINE.json'))
STABLE = BASE if isinstance(BASE, list) else BASE.get('passed') or BASE.get('stable') or BASE.get('tests')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def demo(d):
    r = sh('bash', os.path.join(d, 'demo.sh'), cwd='/repo', timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


for sid, s in SEEDS.items():
    if sys.argv[1:] and sid not in sys.argv[1:]:
        continue
    assert not sh('git', '-C', '/repo', 'status', '--short').stdout.strip(), 'dirty /repo'
    d = os.path.join(HERE, 'seeded', sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\ncd "$(mktemp -d)" || exit 3\ntrap \'cd /; rm -rf "$OLDPWD"\' EXIT\n'
        'd="$DEMO_DIR"\n/opt/venv/bin/python "$d/demo.py"\n'.replace('d="$DEMO_DIR"\n', '')
        .replace('#!/bin/bash\n', '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\n'))
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok, out = demo(d)
    problem = 'demo fails on the unchanged tree: ' + out if ok else None
    try:
        for f, old, new in s['edits']:
            p = os.path.join('/repo/src/mdpo', f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git', '-C', '/repo', 'diff').stdout)
        bad, out = demo(d)
        if not bad:
            problem = 'demo passes with the change'
        sh('bash', '/opt/vp/test.sh', '/tmp/seed_out.json')
        o = json.load(open('/tmp/seed_out.json'))
        miss = [t for t in STABLE if t not in set(o['passed'])]
        if miss:
            problem = f'{len(miss)} tests fail: {miss[:3]}'
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')
    if problem:
        shutil.rmtree(d)
    print(sid, s['property'], problem or 'ok')
