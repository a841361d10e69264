"""Compile /repo's current sources (never a copy) to LLVM bitcode for the analyses.
Nothing that is compiled here is linked or run."""
import os, subprocess, tempfile, shutil, atexit, hashlib, concurrent.futures as cf
from . import llvm as L

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
_tmp = None
def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vp_static_')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

class BuildError(Exception): pass

EDGE_INC = ['-I'+VERIF+'/stubs', '-I'+REPO, '-I'+REPO+'/src', '-I/opt/vp/deps/include', '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/hdf5/serial']
V_INC = ['-I'+VERIF+'/stubs', '-I'+REPO+'/tools/edge_v', '-I'+REPO+'/tools/edge_v/src', '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/hdf5/serial']
CUT_INC = ['-I'+VERIF+'/stubs', '-I'+REPO+'/tools/edge_cut', '-I'+REPO+'/tools/edge_cut/src', '-I/opt/vp/deps/include']
COMMON = ['-DPP_USE_EASYLOGGING', '-DEIGEN_MAX_STATIC_ALIGN_BYTES=0', '-DPP_EDGE_VERSION="offline"']
BASE = ['-std=c++11', '-g1', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
        '-fno-math-errno', '-fexceptions', '-fignore-exceptions', '-fno-threadsafe-statics', '-fno-rtti', '-w', '-Wno-everything', '-ferror-limit=3', '-fno-strict-aliasing',
        '-fno-access-control', '-fno-stack-protector', '-mno-avx','-U_FORTIFY_SOURCE']

def edge_flags(eq='elastic', el='TET4', order=4, prec=64, crs=1, omp=False, extra=()):
    d = ['-DPP_HAS_HDF5', f'-DPP_N_CRUNS={crs}', f'-DPP_ORDER={order}', f'-DPP_PRECISION={prec}', f'-DPP_T_ELEMENTS_{el}', '-DPP_T_KERNELS_VANILLA']
    if eq == 'elastic': d += ['-DPP_T_EQUATIONS_SEISMIC', '-DPP_N_RELAXATION_MECHANISMS=0']
    elif eq.startswith('viscoelastic'): d += ['-DPP_T_EQUATIONS_SEISMIC', '-DPP_N_RELAXATION_MECHANISMS='+eq[12:]]
    else: d += ['-DPP_T_EQUATIONS_'+eq.upper()]
    if omp: d += ['-DPP_USE_OMP', '-fopenmp']
    return BASE + COMMON + d + list(extra) + EDGE_INC
def v_flags(omp=False, extra=()):
    return BASE + COMMON + ['-DPP_USE_METIS'] + (['-DPP_USE_OMP', '-fopenmp'] if omp else []) + list(extra) + V_INC
def cut_flags(extra=()):
    return BASE + COMMON + list(extra) + CUT_INC

def compile_bc(src, flags, text=None, name=None):
    """bitcode of a source file (or of a driver text that includes /repo sources)"""
    d = scratch()
    h = hashlib.sha1((src or '' + '\0'.join(flags)).encode() + (text or '').encode() + '\0'.join(flags).encode()).hexdigest()[:16]
    out = os.path.join(d, h + '.bc')
    if os.path.exists(out): return out
    if text is not None:
        src = os.path.join(d, h + '.cpp')
        open(src, 'w').write(text)
    p = subprocess.run([CLANG] + flags + ['-emit-llvm', '-c', src, '-o', out], capture_output=True, text=True)
    if p.returncode:
        raise BuildError(f'{name or src} does not compile for analysis:\n' + p.stderr[-3000:])
    return out
def load(src, flags, text=None, name=None):
    return L.Module(compile_bc(src, flags, text, name))
def load_many(jobs):
    """jobs: list of (src, flags, text). parallel compile, then parse"""
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda j: compile_bc(*j), jobs))
    return [L.Module(o) for o in outs]
