"""python3 dev/catch.py SEED... : run the checks of each planted bug's property (or VF_CHECKS) on a scratch copy with the patch applied"""
import sys, os, subprocess, json, shutil
for s in sys.argv[1:]:
    d = '/verif/seeded/' + s; m = json.load(open(d + '/meta.json'))
    S = '/tmp/ct.' + s
    shutil.rmtree(S, ignore_errors=True); subprocess.check_call(['cp', '-a', '/repo', S])
    subprocess.check_call(['git', '-C', S, 'apply', '-p1', d + '/patch.diff'])
    for p in os.environ.get('VF_CHECKS', m['property']).split():
        r = subprocess.run(['python3-vt', '-m', 'vf.check', p], cwd='/verif', env=dict(os.environ, VF_REPO=S), capture_output=True, text=True)
        l = r.stdout.splitlines()
        print('==', s, p, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and any('VIOLATION property=' + p in x for x in l) else 'MISSED')
        for x in l[:1] + [x for x in l[1:] if 'note' not in x][:6]: print('    ', x[:300])
        if r.returncode not in (0, 1): print(r.stderr[-800:])
    shutil.rmtree(S)
