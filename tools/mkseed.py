"""mkseed.py SPEC.py...  -- turn a planted-bug specification into seeded/<id>/ after confirming it in a scratch copy.

A specification defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO (python source, exits non-zero on
the bug).  Confirmed: applies to HEAD, tests pass, demo passes without the change and fails with it.
With --check, the property's check is run against the changed copy as well."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    for spec in args:
        one(spec, '--check' in sys.argv, '--notest' in sys.argv)


def one(spec, check, notest):
    ns = {}
    exec(open(spec).read(), ns)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        sh('cp -a /repo %s/repo' % tmp)
        r = tmp + '/repo'
        for f, old, new in ns['EDITS']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(ns['ID'], 'EDIT does not match once:', f, s.count(old), repr(old[:60]))
                return
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % r).stdout
        d = os.path.join(tmp, 'd')
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(ns['DEMO'])
        open(d + '/demo.sh', 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        a = sh('sh %s/demo.sh' % d, cwd='/repo')
        inside = lambda c: sh("unshare -m sh -c 'mount --bind %s /repo && cd /repo && %s'" % (r, c))
        b = inside('sh %s/demo.sh' % d)
        if a.returncode != 0 or b.returncode == 0:
            print(ns['ID'], 'DEMO wrong: clean rc', a.returncode, 'bug rc', b.returncode, a.stderr[-500:], b.stderr[-300:])
            return
        if not notest:
            t = inside('bash /opt/vp/test.sh %s/t.json' % tmp).stdout.strip().splitlines()[-1]
            if '18325 passed' not in t:
                print(ns['ID'], 'TESTS fail:', t)
                return
        out = os.path.join(HERE, 'seeded', ns['ID'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            open(out + '/' + f, 'w').write(open(d + '/' + f).read())
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
        msg = (b.stderr or b.stdout).strip().splitlines()[-1:] or ['']
        print(ns['ID'], 'kept;', msg[0][:150])
        if check:
            c = inside('%s/check.sh %s quick' % (HERE, ns['PROP']))
            print('   check rc', c.returncode, [l[:200] for l in c.stdout.splitlines() if 'VIOLATION' in l or ' at ' in l][:3], c.stderr[-300:])
    finally:
        sh('rm -rf %s' % tmp)


main()
