"""Compile the harness translation units (which include the real sources of /repo) to LLVM IR and to native code."""
import os, subprocess, shutil, hashlib, re, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
# assertions of the library (caribou_assert), of Eigen and of libstdc++ are enabled: each of them is an obligation
DEFS = ['-D_GLIBCXX_ASSERTIONS', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_DONT_PARALLELIZE', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
        '-DEIGEN_STACK_ALLOCATION_LIMIT=0']
# Eigen's blocked GEMM kernel is replaced by Eigen's own coefficient-based product in the verified build
IRDEFS = ['-DEIGEN_GEMM_TO_COEFFBASED_THRESHOLD=1000000']


class BuildError(Exception):
    pass


def gen_config(out):
    """instantiate Config/*.h.in as the default CMake configuration does (no option set)"""
    d = os.path.join(out, 'Caribou')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, 'src/Caribou/Config')
    for f in os.listdir(src):
        if f.endswith('.h.in'):
            s = open(os.path.join(src, f)).read()
            s = re.sub(r'^#cmakedefine (\w+)\s*$', r'/* #undef \1 */', s, flags=re.M)
            s = re.sub(r'^#cmakedefine (\w+) .*$', r'#define \1 0', s, flags=re.M)
            s = re.sub(r'@\w+@', '0', s)
            open(os.path.join(d, f[:-3]), 'w').write(s)
    c = os.path.join(REPO, 'src/SofaCaribou/config.h.in')
    if os.path.exists(c):
        os.makedirs(os.path.join(out, 'SofaCaribou'), exist_ok=True)
        open(os.path.join(out, 'SofaCaribou', 'config.h'), 'w').write(open(c).read())


def eigen_inc():
    for p in ('/usr/include/eigen3', '/usr/local/include/eigen3'):
        if os.path.isdir(p): return p
    return '/usr/include/eigen3'


def incs(work):
    return ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(VERIF, 'harness/sofa_stub'), '-I' + os.path.join(VERIF, 'harness/vtk_stub'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(work, 'cfg'), '-isystem', eigen_inc()]


def run(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-6000:]))
    return p


class Builder:
    def __init__(self, work):
        self.work = work; self.noassert = set(); self.failed = {}
        os.makedirs(work, exist_ok=True)
        gen_config(os.path.join(work, 'cfg'))

    def build(self, name, srcs, extra=()):
        """srcs: list of (stem, path, [defines]).  Produces work/<stem>.ll and work/<stem>.so in parallel."""
        with ThreadPoolExecutor(8) as ex:
            jobs = [ex.submit(self.one, stem, path, list(defs) + list(extra), f) for stem, path, defs in srcs for f in (self.ir, self.native)]
        for j, stem in zip(jobs, [s[0] for s in srcs for _ in (0, 1)]):
            try: j.result()
            except BuildError as e: self.failed[stem] = str(e)
        if len(self.failed) == len(srcs): raise BuildError(next(iter(self.failed.values())))

    def one(self, stem, path, defs, f):
        try:
            return f(stem, path, defs)
        except BuildError:
            if '-DNDEBUG' in defs: raise
        # sources that only compile without assertions, as the default build type of the project compiles them
        self.noassert.add(stem)
        return f(stem, path, defs + ['-DNDEBUG'])

    def ir(self, stem, path, defs):
        o = os.path.join(self.work, stem)
        run([LLVM + 'clang++', '-std=c++17', '-w', *DEFS, *IRDEFS, *defs, *incs(self.work), '-O1', '-Xclang', '-disable-llvm-passes',
             '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-fno-discard-value-names', '-S', '-emit-llvm', path, '-o', o + '.raw.ll'])
        run([LLVM + 'opt', '-S', '-passes=function(sroa,early-cse,simplifycfg)', o + '.raw.ll', '-o', o + '.ll'])
        os.unlink(o + '.raw.ll')
        return o + '.ll'

    def native(self, stem, path, defs):
        o = os.path.join(self.work, stem)
        run(['g++', '-std=c++17', '-w', '-DVH_NATIVE', *DEFS, *defs, *incs(self.work), '-O1', '-ffp-contract=off', '-fPIC', '-shared', path, '-o', o + '.so'])
        return o + '.so'


def demangle(names):
    p = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(names) + '\n', capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))
