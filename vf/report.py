"""Bookkeeping of one check run: obligations, stand-ins, witnesses, known findings, evidence, verdict."""
import os, sys, json, time, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, 'known-findings.txt')

class Report:
    def __init__(self, pid):
        self.pid = pid; self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick'); self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.fns = {}           # function -> dict(contract, obligations, discharged, undecided reason, solver_s)
        self.failed = []        # (function, kind, text, model)
        self.undecided = []     # (function, reason)
        self.bounded = []       # (what, bound, cases)
        self.witness = []       # (text, replay dict)
        self.assume = []
        self.trusted = []
        self.notes = []
        self.known = []
        self.solver = 0.0
        self.kinds = {}
        self.budget = 840 if self.tier == 'quick' else 3000
    def left(self): return self.budget - (time.time() - self.t0)
    def enough(self):
        '''stop generating obligations: the verdict is settled, or the time is needed for the bounded stand-in'''
        t = time.time() - self.t0; k = 1 if self.tier == 'quick' else 6
        if self.failed and t > 200*k: return 'an obligation is refuted already'
        if t > 520*k: return 'time budget'
    def take(self, it):
        '''the results of the verification tasks, until there is enough'''
        for x in it:
            yield x
            e = self.enough()
            if e:
                if e == 'time budget': self.undecided.append(('(remaining tasks)', 'time budget used up'))
                else: self.notes.append('remaining tasks skipped: ' + e)
                return
    # ---- obligations
    def function(self, fn, contract, obls, undecided=None, solver_s=0.0, where=''):
        """obls: iterable of (kind, ok, text[, model])"""
        e = self.fns.setdefault(fn, dict(function=fn, contract=contract, obligations=0, discharged=0, undecided=[], solver_s=0.0))
        for o in obls:
            kind, ok, text = o[0], o[1], o[2]
            e['obligations'] += 1
            k = self.kinds.setdefault(kind, [0, 0]); k[0] += 1
            if ok is True: e['discharged'] += 1; k[1] += 1
            elif ok is False: self.failed.append((fn, kind, where + text, o[3] if len(o) > 3 else None))
            else: self.undecided.append((fn, '%s: %s not decided' % (kind, (where + text)[:160])))
        if undecided:
            self.undecided.append((fn, where + undecided)); e['undecided'].append(where + undecided)
        e['solver_s'] += solver_s; self.solver += solver_s
    def oblige(self, fn, kind, ok, text, contract=''):
        self.function(fn, contract, [(kind, ok, text)])
    def stand_in(self, what, bound, cases):
        self.bounded.append(dict(what=what, bound=bound, cases=cases))
    def found(self, text, replay): self.witness.append((text, replay))
    # ---- verdict
    def findings(self):
        out = []
        try:
            for l in open(FINDINGS):
                l = l.strip()
                if l.startswith('known: property=%s ' % self.pid):
                    rest = l.split(' ', 2)[2]
                    key, _, txt = rest.partition(' :: ')
                    out.append((key.strip(), txt.strip()))
        except FileNotFoundError: pass
        return out
    def finish(self, level='proof', checker='', extra=None):
        wall = time.time() - self.t0
        nob = sum(f['obligations'] for f in self.fns.values()); nd = sum(f['discharged'] for f in self.fns.values())
        kf = self.findings()
        viol = []
        hit = set()
        for text, rep in self.witness:
            key = rep.get('finding')
            k = [x for x in kf if key and x[0] == key]
            if k: hit.add(k[0])
            else: viol.append((text, rep, False))
        if self.failed and not viol:
            fs = [f for f in self.failed if not (f[3] or {}).get('finding') or not any(x[0] == f[3]['finding'] for x in kf)] if all(f[3] is None or isinstance(f[3], dict) for f in self.failed) else self.failed
            if fs: viol.append(('%d obligation(s) refuted, first: %s %s: %s' % (len(fs), fs[0][0], fs[0][1], fs[0][2]), dict(kind='obligations', failed=[[f[0], f[1], f[2], str(f[3])[:600]] for f in fs[:50]]), True))
        cov = dict(obligations=nob, discharged=nd, checker_cmd=checker or 'python3-vt -m vf.check %s  (VC generator over clang-18 LLVM IR of /repo; back end z3 %s)' % (self.pid, self.z3v()),
                   trusted_base=self.trusted,
                   functions_under_contract=len(self.fns), functions_fully_discharged=sum(1 for f in self.fns.values() if f['obligations'] and f['obligations'] == f['discharged'] and not f['undecided']),
                   obligation_kinds={k: dict(generated=v[0], discharged=v[1]) for k, v in sorted(self.kinds.items())},
                   solver_s=round(self.solver, 2), undecided=[list(u) for u in self.undecided[:60]], undecided_count=len(self.undecided),
                   refuted=[[f[0], f[1], f[2][:300]] for f in self.failed[:40]], bounded=self.bounded,
                   functions=[dict(f, solver_s=round(f['solver_s'], 2)) for f in list(self.fns.values())[:400]])
        cov['evaluations'] = sum(b['cases'] for b in self.bounded)
        if level == 'other' or level == 'exploration':
            cov['explanation'] = (extra or {}).get('explanation', 'bounded stand-in: see "bounded"')
        if extra: cov.update(extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assume, wall_s=round(wall, 2), violations=len(viol))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        print('%s: %d functions under contract, %d/%d obligations discharged, %d undecided, %d bounded cases, %.0f s (solver %.0f s)' % (self.pid, len(self.fns), nd, nob, len(self.undecided), cov['evaluations'], wall, self.solver))
        for u in self.undecided[:8]: print('  undecided (bounded stand-in decides): %s: %s' % u)
        for n in self.notes: print('  note: ' + n)
        for k in kf: print('KNOWN-FINDING: property=%s %s' % (self.pid, k[1]) + ('' if k in hit else ' (not exercised by this run)'))
        rc = 0
        d = os.path.join(ROOT, '.work', 'replay'); os.makedirs(d, exist_ok=True)
        for i, (text, rep, nf) in enumerate(viol[:10]):
            p = os.path.join(d, '%s-%d.json' % (self.pid, i))
            json.dump(dict(property=self.pid, what=text, **rep), open(p, 'w'), indent=1, default=str)
            print('  ' + text[:600])
            print('VIOLATION property=%s replay=%s%s' % (self.pid, p, ' no-failing-input-found' if nf else ''))
            rc = 1
        sys.stdout.flush()
        return rc
    def z3v(self):
        import z3
        return z3.get_version_string()
