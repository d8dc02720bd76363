"""Plant a bug: python3 tools/seed.py DIR   (DIR has edit.py (replacements), demo.c, meta.json written by hand).
Applies the edits in a scratch copy, builds, runs the stable tests, runs the demo on both trees, writes
patch.diff and demo.sh into /verif/seeded/<id>/.  Usage from python: plant(id, prop, needs, breaks, edits, demo, san)."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -w %s-Iinc "$here/demo.c" %s -lm -o "$t/demo" || exit 2
cd "$t" && mkdir work && cd work && timeout 60 "$t/demo"
'''


def sh(cmd, cwd, ok=True):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def plant(id, prop, needs, breaks, edits, demo, san=False):
    out = os.path.join(VERIF, 'seeded', id)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'demo.c'), 'w').write(demo)
    src = '$(find src -name "*.c")' if san else 'lib/libvita.a'
    flags = '-fsanitize=address,undefined -fno-sanitize-recover=undefined ' if san else ''
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO % (flags, src))
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], stdout=subprocess.PIPE, text=True).stdout == ''
    try:
        subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
        rc, o = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
        if rc:
            print(id, 'DEMO FAILS ON CLEAN TREE', rc, o[-800:])
            return False
        for f, a, b in edits:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        d = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        rc, o = sh(['bash', '/opt/vp/build.sh'], '/repo')
        if rc:
            print(id, 'DOES NOT BUILD', o[-800:])
            return False
        rc, o = sh(['bash', '/opt/vp/test.sh', '/tmp/seed_out.json'], '/repo')
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = open('/tmp/seed_out.json').read()
        r = json.loads(res)
        stable = base.get('stable_pass') or base.get('stable') or base.get('passed') or base
        ps = r.get('passed') or [k for k, v in r.items() if v in ('pass', True)]
        miss = [t for t in stable if t not in ps]
        if miss:
            print(id, 'TESTS FAIL', miss)
            return False
        rc, o = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
        if rc == 0:
            print(id, 'DEMO DOES NOT FAIL WITH PATCH')
            return False
        print(id, 'ok (demo rc %d)' % rc)
        return True
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
