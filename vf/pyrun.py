"""Concrete comparison at Python level: the extension built from the current tree against unhooked NumPy.
Runs under the product's interpreter.  The reference process never imports the extension."""
import sys, os, json, time, traceback, multiprocessing as mp
import numpy as np
import warnings
warnings.simplefilter('ignore')

def describe(x):
    return repr(x)[:200]

def same(a, b, opt=None):
    """None or a difference"""
    opt = opt or {}
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b): return 'lengths %d / %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, opt)
            if r: return '[%d] %s' % (i, r)
        return None
    if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)):
        if not isinstance(b, (np.ndarray, np.generic)): return 'numpy %s, pnumpy %s' % (describe(a), describe(b))
        a = np.asarray(a); b = np.asarray(b)
        if a.dtype != b.dtype: return 'dtype: numpy %s, pnumpy %s' % (a.dtype, b.dtype)
        if a.shape != b.shape: return 'shape: numpy %s, pnumpy %s' % (a.shape, b.shape)
        if a.dtype.kind in 'fc' and not opt.get('bits'):
            with np.errstate(all='ignore'):
                eq = (a == b) | ((a != a) & (b != b))
                rt = opt.get('rtol')
                if rt:
                    d = np.abs(a.astype(np.longdouble) - b)
                    lim = rt*(np.abs(a) if 'scale' not in opt else opt['scale'])
                    eq |= (d <= lim)
                if opt.get('ulp') and a.dtype.kind == 'f':
                    fin = np.isfinite(a) & np.isfinite(b)
                    d = np.abs(np.where(fin, a, 0).astype(np.longdouble) - np.where(fin, b, 0))
                    eq |= fin & (d <= opt['ulp']*np.spacing(np.maximum(np.abs(np.where(fin, a, 0)), np.finfo(a.dtype).tiny).astype(a.dtype)))
                    rt = True
                if not opt.get('zero') and not rt and a.dtype.kind == 'f': eq &= (np.signbit(a) == np.signbit(b)) | (a != a)
        elif a.dtype == bool:
            eq = (a.view(np.uint8) if a.ndim and a.flags.c_contiguous else a) == (b.view(np.uint8) if b.ndim and b.flags.c_contiguous else b)
        elif a.dtype.names or a.dtype.kind == 'V':
            return None if a.tobytes() == b.tobytes() else 'bytes differ'
        elif a.dtype.kind in 'mM': eq = a.view('i8') == b.view('i8') if a.ndim else (a.astype('i8') == b.astype('i8'))
        else: eq = a == b
        eq = np.asarray(eq)
        if eq.all(): return None
        i = int(np.nonzero(~eq.ravel())[0][0])
        return 'element %d of %s: numpy %r, pnumpy %r (%d differ)' % (i, a.shape, a.ravel()[i], b.ravel()[i], int((~eq).sum()))
    if type(a) is float and type(b) is float and a != a and b != b: return None
    return None if a == b and type(a) == type(b) else 'numpy %s, pnumpy %s' % (describe(a), describe(b))

def guarded(f, *a):
    try: return f(*a)
    except Exception as e: return ['EXC', type(e).__name__]

def child(conn, path, suite):
    sys.path.insert(0, path)
    devnull = os.open(os.devnull, os.O_WRONLY); os.dup2(devnull, 1)
    import pnumpy
    assert os.path.realpath(os.path.dirname(pnumpy.__file__)).startswith(os.path.realpath(path)), pnumpy.__file__
    from vf import suites
    S = suites.SUITES[suite]
    while True:
        c = conn.recv()
        if c is None: os._exit(0)
        try: r = guarded(S.run, np, c, pnumpy)
        except BaseException as e: r = ['EXC', type(e).__name__]
        try: conn.send(r)
        except Exception as e: conn.send(['UNPICKLABLE', str(e)[:100]])

class Pair:
    def __init__(self, path, suite): self.path = path; self.suite = suite; self.up()
    def up(self):
        a, b = mp.Pipe()
        self.c = a
        self.p = mp.get_context('fork').Process(target=child, args=(b, self.path, self.suite), daemon=True); self.p.start(); b.close()
    def down(self):
        try: self.p.kill()
        except Exception: pass
        self.p.join(5)

def main():
    q = json.load(sys.stdin)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vf import suites
    S = suites.SUITES[q['suite']]
    end = time.time() + q['budget']
    pr = Pair(q['path'], q['suite'])
    n = 0
    fails = 0
    cs = [q['case']] if q.get('case') else S.cases(np.random.default_rng([q['seed'], q.get('part', 0)]), q['tier'])
    part, parts = q.get('part', 0), q.get('parts', 1)
    keys = set()
    for i, c in enumerate(cs):
        if not q.get('case') and i % parts != part: continue
        if time.time() > end: break
        try: pr.c.send(c)
        except Exception: pr.down(); pr.up(); pr.c.send(c)
        ref = guarded(S.run, np, c, None)
        r = None
        try:
            if not pr.c.poll(60): r = 'no result after 60 s'
            else: got = pr.c.recv()
        except (EOFError, ConnectionResetError, OSError):
            pr.p.join(5); r = 'the process died (exit code %s)' % pr.p.exitcode
        if r: pr.down(); pr.up()
        else:
            try: r = S.cmp(c, ref, got)
            except Exception as e:
                print(json.dumps(dict(error='compare: ' + traceback.format_exc()[-800:], case=c)), flush=True); continue
        n += 1
        if r:
            k = S.finding(c)
            if k and k in keys: continue
            keys.add(k)
            print(json.dumps(dict(fail=r, case=c, suite=q['suite'], finding=k)), flush=True)
            if not k:
                fails += 1
                if fails >= 5: break
    print(json.dumps(dict(done=n)), flush=True)
    pr.down()
    os._exit(0)
if __name__ == '__main__': main()
