"""Scratch builds from /repo's current working tree.  Nothing is written to /repo or /opt/vp."""
import os, subprocess, tempfile, shutil, atexit, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/vp/venv/bin/python'
NPINC = None
COMMON = '-mavx2 -fpermissive -std=c++11 -pthread -w -DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION -DNDEBUG -fwrapv'.split()
GXX = COMMON + '-falign-functions=32 -O2 -fPIC'.split()
CLANG = COMMON + '-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-strict-aliasing -ffp-contract=off -S -emit-llvm'.split()
PNFLAGS = ['-DPyUnicode_GET_SIZE=PyUnicode_GET_LENGTH']
ATOP = ['atop', 'threads', 'recarray', 'sort', 'fill', 'ops_binary', 'ops_compare', 'ops_unary', 'ops_trig', 'ops_log']
PNUMPY = ['_pnumpy', 'module_init', 'common', 'ledger', 'getitem', 'conversions', 'recycler', 'sorting']

# the hooks are verified function by function: keep the calls
NOINLINE = {'_pnumpy', 'threads', 'ledger', 'module_init', 'common', 'conversions', 'recycler'}

class BuildError(Exception): pass

class Work:
    """one scratch directory per check run, removed at exit"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vfwork.')
        self.pid = os.getpid()
        if not os.environ.get('VF_KEEP'): atexit.register(self.clean)
        else: print('scratch', self.dir)
        self.src = os.path.join(self.dir, 'src')
        shutil.copytree(os.path.join(REPO, 'src'), self.src, ignore=shutil.ignore_patterns('*.so', '__pycache__', 'PNUMPY.h', '_version.py'))
        shutil.copy(os.path.join(REPO, '_add_newdocs.py'), self.dir)
        self.gen = False
        self.inc = None
    def clean(self):
        if os.getpid() == self.pid: shutil.rmtree(self.dir, ignore_errors=True)
    def prep(self):
        if self.gen: return
        self.gen = True
        env = dict(os.environ); env['PYTHONDONTWRITEBYTECODE'] = '1'
        for k in ('PYTHONPATH', 'PYTHONHOME'): env.pop(k, None)
        r = subprocess.run([PY, '-c', "import _add_newdocs as m; m.main()\nimport numpy, sysconfig\nprint('INC', numpy.get_include(), sysconfig.get_paths()['include'], sep='\\n')"], cwd=self.dir, env=env, capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-2000:])
        l = r.stdout.split('INC\n')[-1].strip().split('\n')
        self.inc = ['-I' + x for x in l]
        open(os.path.join(self.src, 'pnumpy', '_version.py'), 'w').write("__version__='2.0.0'")
    def path(self, m):
        return os.path.join(self.src, 'atop' if m in ATOP else 'pnumpy', m + '.cpp')
    def flags(self, m):
        inc = ['-I' + os.path.join(self.src, 'pnumpy'), '-I' + os.path.join(self.src, 'atop')]
        if m in PNUMPY:
            self.prep()
            return inc + self.inc + PNFLAGS
        return inc
    def ir(self, mods, extra=()):
        """LLVM IR text of each module"""
        if any(m in PNUMPY for m in mods): self.prep()
        def one(m):
            o = os.path.join(self.dir, m + '.ll')
            r = subprocess.run(['clang++'] + CLANG + (['-fno-inline', '-Dalways_inline=noinline'] if m in NOINLINE else []) + list(extra) + self.flags(m) + [self.path(m), '-o', o], capture_output=True, text=True)
            if r.returncode: raise BuildError(m + ': ' + r.stderr[-2000:])
            return m, open(o).read()
        with ThreadPoolExecutor(8) as p: return dict(p.map(one, mods))
    def layout(self, m, structs):
        """{struct: {field: (byte offset, type)}} as the compiler lays them out"""
        import re
        r = subprocess.run(['clang++'] + COMMON + self.flags(m) + ['-w', '-S', '-emit-llvm', '-o', '/dev/null', '-Xclang', '-fdump-record-layouts', self.path(m)], capture_output=True, text=True)
        if r.returncode: raise BuildError(m + ': ' + r.stderr[-2000:])
        out = {}
        for blk in r.stdout.split('*** Dumping AST Record Layout'):
            h = re.search(r'^\s*0 \| (?:struct |class |union )?([\w:]+)', blk, re.M)
            if not h or h.group(1) not in structs: continue
            f = {}
            for o, ind, ty, n in re.findall(r'^\s*(\d+)(?::[\d-]+)? \|( +)(\S.*?) (\w+)$', blk, re.M):
                if len(ind) == 3: f[n] = (int(o), ty)
                elif len(ind) == 5: f.setdefault(n, (int(o), ty))     # members of anonymous unions
            sz = re.search(r'sizeof=(\d+)', blk)
            f[''] = (int(sz.group(1)), 'sizeof')
            out[h.group(1)] = f
        return out
    def compile(self, mods, tag='o', flags=None, cxx='g++'):
        if any(m in PNUMPY for m in mods): self.prep()
        def one(m):
            o = os.path.join(self.dir, '%s.%s.o' % (m, tag))
            r = subprocess.run([cxx] + (flags or GXX) + self.flags(m) + ['-c', self.path(m), '-o', o], capture_output=True, text=True)
            if r.returncode: raise BuildError(m + ': ' + r.stderr[-2000:])
            return o
        with ThreadPoolExecutor(8) as p: return list(p.map(one, mods))
    def link(self, objs, out):
        r = subprocess.run(['g++', '-shared', '-pthread', '-o', out] + objs + ['-lm'], capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-2000:])
        return out
    def atoplib(self):
        """the kernels, compiled as the product compiles them"""
        return self.link(self.compile(ATOP), os.path.join(self.dir, 'libatop.so'))
    def package(self):
        """the whole extension in a scratch package; returns the directory for PYTHONPATH"""
        objs = self.compile(ATOP + PNUMPY)
        self.link(objs, os.path.join(self.src, 'pnumpy', '_pnumpy.abi3.so'))
        return self.src
def pyenv(path):
    env = dict(os.environ)
    for k in ('PYTHONHOME', 'NPY_DISABLE_CPU_FEATURES'): env.pop(k, None)
    env['PYTHONPATH'] = path; env['PYTHONDONTWRITEBYTECODE'] = '1'; env['PYTHONHASHSEED'] = '0'
    return env
