"""Rebase every seeded patch on /repo's HEAD (patch with fuzz in a scratch copy, then git diff)."""
import os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = tempfile.mkdtemp(prefix='rf', dir='/tmp')
w = os.path.join(t, 'r')
subprocess.check_call(['git', 'clone', '-q', '/repo', w])
try:
    for i in sorted(os.listdir(H + '/seeded')):
        p = '%s/seeded/%s/patch.diff' % (H, i)
        if subprocess.call(['git', '-C', w, 'apply', '--check', p], stderr=subprocess.DEVNULL) == 0:
            continue
        r = subprocess.run(['patch', '-p1', '--no-backup-if-mismatch', '-s', '-i', p], cwd=w, capture_output=True, text=True)
        if r.returncode:
            print(i, 'FAILED', r.stdout)
        else:
            open(p, 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
            print(i, 'rebased')
        subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
        subprocess.check_call(['git', '-C', w, 'clean', '-fdq'])
finally:
    shutil.rmtree(t)
