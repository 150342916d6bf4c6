"""Launch Python level comparisons (vf.pyrun) from the check driver."""
import os, json, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def run(path, suite, seed=1, tier='quick', budget=60, parts=3, case=None):
    """-> (cases run, failures [{fail, case, suite, finding}])"""
    def one(i):
        q = dict(path=path, suite=suite, seed=seed, tier=tier, budget=budget, part=i, parts=parts)
        if case is not None: q['case'] = case
        env = build.pyenv(ROOT)
        env.pop('VF_X', None)
        try: r = subprocess.run([build.PY, '-m', 'vf.pyrun'], input=json.dumps(q), capture_output=True, text=True, env=env, cwd=ROOT, timeout=budget + 150)
        except subprocess.TimeoutExpired as e: return [dict(fail='comparison driver did not finish', case=None, suite=suite, error='timeout')]
        out = [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{')]
        if not any('done' in o for o in out): raise RuntimeError('comparison driver failed: ' + r.stderr[-1500:])
        return out
    if case is not None: parts = 1
    with ThreadPoolExecutor(parts) as p: outs = [x for l in p.map(one, range(parts)) for x in l]
    n = sum(o.get('done', 0) for o in outs)
    errs = [o for o in outs if 'error' in o]
    if errs: raise RuntimeError(str(errs[0]))
    return n, [o for o in outs if o.get('fail')]
