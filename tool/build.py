"""Builds what the checks need from /repo's current working tree."""
import os, subprocess, hashlib, re, glob, fcntl, json
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
INC = [f'-I{BUILD}/gen', f'-I{VERIF}/models', f'-I{VERIF}/harness', f'-I{VERIF}/native', f'-I{REPO}', '-I/usr/include/eigen3', '-I/usr/include/lua5.2']
PFL = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-exceptions', '-fno-access-control', '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-w'] + INC
NFL = ['-std=c++17', '-O1', '-g1', '-DNDEBUG', '-w', '-DVC_NATIVE', '-DBOOST_IOSTREAMS_DYN_LINK', '-DBOOST_IOSTREAMS_NO_LIB', '-DGFLAGS_IS_A_DLL=0', '-DGLOG_CUSTOM_PREFIX_SUPPORT'] + INC
LIBS = ['-lz', '-lceres', '-lglog', '-lgflags', '-llua5.2', '-lboost_iostreams', '-lcairo', '-lprotobuf'] + sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so.20220623')) + ['-latomic', '-lpthread']
CXX = 'clang++-18'

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

class Lock:
    def __init__(self, name): self.p = os.path.join(BUILD, name + '.lock')
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def protos():
    return sorted(p for p in glob.glob(f'{REPO}/cartographer/**/*.proto', recursive=True) if '/cloud/' not in p)

def ensure_common():
    with Lock('common'):
        ps = protos()
        key = sha(*[open(p, 'rb').read() for p in ps], *ps)
        stamp = os.path.join(BUILD, 'gen.stamp')
        if os.path.exists(stamp) and open(stamp).read() == key: return
        os.makedirs(f'{BUILD}/gen', exist_ok=True)
        r = sh(['protoc', f'--proto_path={REPO}', f'--cpp_out={BUILD}/gen'] + [os.path.relpath(p, REPO) for p in ps], cwd=REPO)
        if r.returncode: raise RuntimeError('protoc: ' + r.stderr)
        with open(f'{BUILD}/gen/vc_protos.h', 'w') as f:
            for p in ps: f.write(f'#include "{os.path.relpath(p, REPO)[:-6]}.pb.h"\n')
        for p in glob.glob(f'{BUILD}/*.pch') + glob.glob(f'{BUILD}/libpb*'): os.unlink(p)
        open(stamp, 'w').write(key)

def ensure_pch(name, flags):
    with Lock(name):
        key = sha(' '.join(flags), open(f'{VERIF}/models/prelude.h', 'rb').read())
        pch = f'{BUILD}/{name}-{key}.pch'
        if not os.path.exists(pch):
            r = sh([CXX] + flags + ['-Xclang', '-fno-pch-timestamp', '-x', 'c++-header', f'{VERIF}/models/prelude.h', '-o', pch + '.tmp'])
            if r.returncode: raise RuntimeError('pch: ' + r.stderr[-2000:])
            os.rename(pch + '.tmp', pch)
        return pch

def ensure_proof_tools():
    with Lock('irdump'):
        r = sh(['bash', f'{VERIF}/tool/build.sh'])
        if r.returncode: raise RuntimeError('irdump: ' + r.stderr[-2000:])
    return ensure_pch('proof', PFL)

_inc = re.compile(rb'^\s*#\s*include\s*"([^"]+)"', re.M)
def closure(src):
    """all cartographer files reachable by #include, and the .cc beside each header"""
    seen = set(); work = [src]
    while work:
        f = work.pop()
        if f in seen or not os.path.exists(f): continue
        seen.add(f)
        for m in _inc.findall(open(f, 'rb').read()):
            n = m.decode()
            if n.endswith('.pb.h'): continue
            for base in (REPO, os.path.dirname(f), f'{VERIF}/harness', f'{VERIF}/models', f'{VERIF}/native', VERIF):
                p = os.path.normpath(os.path.join(base, n))
                if os.path.exists(p):
                    work.append(p); break
    return seen

def deps_hash(src):
    return sha(*[x for f in sorted(closure(src)) for x in (f, open(f, 'rb').read())])

def compile_proof(src):
    pch = ensure_proof_tools()
    key = sha(deps_hash(src), ' '.join(PFL), open(f'{VERIF}/tool/irdump.cc', 'rb').read(), open(f'{BUILD}/gen.stamp').read(), open(f'{VERIF}/models/prelude.h').read())
    os.makedirs(f'{BUILD}/mod', exist_ok=True)
    out = f'{BUILD}/mod/{os.path.basename(os.path.dirname(src))}-{os.path.basename(src)[:-9]}'
    js = f'{out}-{key}.json'
    if os.path.exists(js): return js, None
    for p in glob.glob(out + '-*.json'): os.unlink(p)
    r = sh([CXX] + PFL + ['-include-pch', pch, '-emit-llvm', '-c', src, '-o', out + '.bc'])
    if r.returncode: return None, 'does not compile for the verifier: ' + r.stderr[:1500]
    r = sh([f'{BUILD}/irdump', out + '.bc', js + '.tmp', '>::slerp<'])
    os.unlink(out + '.bc')
    if r.returncode: return None, 'irdump: ' + r.stderr[-1500:]
    os.rename(js + '.tmp', js)
    return js, None

def pb_lib():
    with Lock('pblib'):
        lib = f'{BUILD}/libpb.a'
        if os.path.exists(lib): return lib
        os.makedirs(f'{BUILD}/pbobj', exist_ok=True)
        ccs = [f'{BUILD}/gen/{os.path.relpath(p, REPO)[:-6]}.pb.cc' for p in protos()]
        def one(c):
            o = f'{BUILD}/pbobj/' + os.path.relpath(c, f'{BUILD}/gen').replace('/', '_') + '.o'
            r = sh([CXX, '-std=c++17', '-O1', '-w', '-DNDEBUG', f'-I{BUILD}/gen', '-c', c, '-o', o])
            if r.returncode: raise RuntimeError(r.stderr[-1000:])
            return o
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, ccs))
        r = sh(['ar', 'rcs', lib + '.tmp'] + objs)
        if r.returncode: raise RuntimeError(r.stderr)
        os.rename(lib + '.tmp', lib)
        return lib

def build_native(src, tag):
    pch = ensure_pch('native', NFL)
    skip = set(re.findall(r'VCN-SKIP:\s*(\S+)', open(src).read()))
    extra = re.findall(r'VCN-ADD:\s*(\S+)', open(src).read())
    # transitive: sources of headers of sources ...
    files = set(); ccs = [src] + [os.path.join(REPO, e) for e in extra]; done = set()
    while ccs:
        c = ccs.pop()
        if c in done: continue
        done.add(c)
        for h in closure(c):
            if h in files or not h.startswith(REPO + '/cartographer/') or not h.endswith('.h'): continue
            files.add(h)
            cc = h[:-2] + '.cc'
            if os.path.exists(cc) and os.path.relpath(cc, REPO) not in skip: ccs.append(cc)
    os.makedirs(f'{BUILD}/obj', exist_ok=True)
    gen = open(f'{BUILD}/gen.stamp').read()
    def one(c):
        key = sha(deps_hash(c), ' '.join(NFL), gen, c, open(f'{VERIF}/models/prelude.h').read())
        o = f'{BUILD}/obj/{key}.o'
        if os.path.exists(o): return o, None
        tmp = f'{o}.{os.getpid()}.tmp'
        r = sh([CXX] + NFL + ['-include-pch', pch, '-c', c, '-o', tmp])
        if r.returncode:
            if b'LocalParameterization' in r.stderr.encode() and c != src: return None, None   # left out; linking tells if it is needed
            return None, f'{c}: {r.stderr[:1500]}'
        os.rename(tmp, o)
        return o, None
    with ThreadPoolExecutor(8) as ex:
        fl = ex.submit(pb_lib)
        objs = list(ex.map(one, sorted(done)))
        lib = fl.result()
    for o, e in objs:
        if o is None and e: return None, e
    exe = f'{BUILD}/native-{tag}'
    r = sh([CXX, '-Wl,--gc-sections'] + [o for o, _ in objs if o] + [lib] + LIBS + ['-o', exe + '.tmp'])
    if r.returncode: return None, 'link: ' + r.stderr[:2500]
    os.rename(exe + '.tmp', exe)
    return exe, None
