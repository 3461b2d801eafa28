#!/usr/bin/env python3
"""seed.py FILE.py : plants the bugs described in FILE.py (calls of bug(...)) under /verif/seeded after confirming them in a
scratch copy of /repo: compiles, the stable tests pass, demo.sh is 0 on the unchanged tree and nonzero with the patch."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw'
DEMO = '''#!/bin/bash
# run with cwd = the repository
set -e
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -g -O1 %s -Iboofcpp/src/boofcv "$H/demo.cpp" boofcpp/src/boofcv/*.cpp -o "$T/demo" || exit 0
cd "$T"
timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def bug(id, prop, edits, demo, needs, what, asan=False):
    """edits: [(file, old, new)] under boofcpp/src/boofcv"""
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        return
    d = os.path.join(ROOT, 'seeded', id)
    shutil.rmtree(W, ignore_errors=True)
    sh('cp -a /repo ' + W)
    for f, old, new in edits:
        p = os.path.join(W, f if '/' in f else 'boofcpp/src/boofcv/' + f)
        s = open(p).read()
        pat = re.sub(r'(\\ |\\\n|\s)+', r'\\s+', re.escape(old.strip()))
        n = len(re.findall(pat, s))
        assert n == 1, (id, f, n, old)
        s = re.sub(pat, lambda m: new, s)
        open(p, 'w').write(s)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % W).stdout)
    open(d + '/demo.cpp', 'w').write('#include <cstdio>\n#include <cstdlib>\n' + demo.strip() + '\n')
    open(d + '/demo.sh', 'w').write(DEMO % ('-fsanitize=address,undefined -fno-sanitize-recover=all' if asan else ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    r1 = sh('bash %s/demo.sh' % d, cwd=W)
    # confirm it compiled in W
    c = sh('g++ -std=c++11 -w -fsyntax-only -Iboofcpp/src/boofcv %s/demo.cpp' % d, cwd=W)
    shutil.copytree('/opt/vp', '/tmp/seedvp', dirs_exist_ok=True)
    t = sh(r'''sed 's#/repo#%s#g' /opt/vp/build.sh > /tmp/seedvp/build.sh; sed 's#/repo#%s#g; s#/opt/vp/build.sh#/tmp/seedvp/build.sh#' /opt/vp/test.sh > /tmp/seedvp/test.sh
rm -rf %s/_build; bash /tmp/seedvp/test.sh /tmp/seedvp/out.json''' % (W, W, W))
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = json.load(open('/tmp/seedvp/out.json'))
    miss = missing(base, out)
    ok = r0.returncode == 0 and r1.returncode != 0 and c.returncode == 0 and not miss
    print(id, 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'compiles', c.returncode, 'missing', list(miss)[:4])
    if not ok:
        print(r0.stdout[-600:], r1.stdout[-600:], t.stdout[-500:])
    shutil.rmtree(W, ignore_errors=True)


def names(j):
    if isinstance(j, dict):
        for k in ('stable', 'passed', 'pass', 'tests'):
            if k in j:
                return names(j[k])
        return {k for k, v in j.items() if v in (True, 'passed', 'pass', 'PASS')}
    return {x if isinstance(x, str) else x.get('name') for x in j}


def missing(b, o):
    return names(b) - names(o)


if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
