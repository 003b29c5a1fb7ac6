"""Builds the harness translation units against /repo's current sources: LLVM IR for the verifier and, from that very
IR, the native shared object used for replay."""
import re, os, subprocess, hashlib, tempfile, shutil, ctypes, sys, json
REPO = os.environ.get("VC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NGS = "/opt/ngs/6.2.2405"
NGSLIB = NGS + "/lib/python3.12/site-packages/netgen_mesher.libs"
DEFS = ("HAVE_CXA_DEMANGLE HAVE_DLFCN_H HAVE_NETGEN_SOURCES LAPACK NETGEN_PYTHON NGS_PYTHON NG_MPI_WRAPPER NG_PYTHON NgsAMG_EXPORTS "
        "PARALLEL PYBIND11_SIMPLE_GIL_MANAGEMENT TCL USE_PARDISO USE_TIMEOFDAY _GLIBCXX_USE_CXX11_ABI=1 MIS_AGG SPW_AGG ELASTICITY "
        "STOKES_AMG NGS_COMPATIBILITY NDEBUG MAX_SYS_DIM=3").split()
INCS = ("base base/utils base/distributed base/mesh base/coarsening base/factory base/smoothers base/solve base/precond base/ngs_extension "
        "base/linalg base/python elasticity h1 stokes/common stokes/ncfes stokes/hdiv").split()

def flags():
    f = ["-D" + d for d in DEFS] + [f"-I{REPO}/src/{i}" for i in INCS]
    for i in ("/usr/include/python3.12", NGS + "/include/netgen", NGS + "/include/netgen/include"): f += ["-isystem", i]
    return f + ["-Wno-everything", "-std=c++17", "-fPIC"]

class BuildError(Exception): pass

def src_hash():
    h = hashlib.sha256()
    for d, dn, fn in sorted(os.walk(REPO + "/src")):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(d, f); h.update(p.encode())
            with open(p, "rb") as fh: h.update(fh.read())
    return h.hexdigest()
_sh = None

def run(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd)[:300] + "\n" + r.stdout[-4000:])
    return r.stdout

def workdir():
    d = os.environ.get("VC_WORK")
    if not d:
        d = tempfile.mkdtemp(prefix="vc_"); os.environ["VC_WORK"] = d
        import atexit
        pid = os.getpid()
        def rm():
            if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
        atexit.register(rm)
    return d

def frontend(tu, opt="-O2", extra=()):
    """contracts/<tu>.cpp -> unoptimised IR (clang front end on the real sources)"""
    global _sh
    src = f"{HERE}/contracts/{tu}.cpp"
    w = workdir()
    out = f"{w}/{tu}.ll"
    if os.path.exists(out): return out
    cache = os.environ.get("VC_CACHE")
    if cache:
        if _sh is None: _sh = src_hash()
        hs = b"".join(open(f"{HERE}/contracts/{x}", "rb").read() for x in sorted(os.listdir(f"{HERE}/contracts")) if x.endswith((".hpp",)) or x == tu + ".cpp")
        k = hashlib.sha256((_sh + opt + str(extra)).encode() + hs).hexdigest()[:24]
        cp = f"{cache}/{k}.ll"
        if os.path.exists(cp):
            shutil.copy(cp, out); return out
    run(["clang++-18", *flags(), f"-I{HERE}/contracts", "-fno-access-control", opt, "-ffp-contract=off", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm",
         "-o", out + ".tmp", src, *extra])
    os.rename(out + ".tmp", out)
    if cache:
        os.makedirs(cache, exist_ok=True); shutil.copy(out, cp + ".t"); os.rename(cp + ".t", cp)
    return out

SIMPL = "function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)"
def reduce_ir(tu, fns, unroll=True, out=None, opaque=()):
    """inline everything reachable from the harness functions; drop the rest.  Only standard LLVM passes."""
    ll = frontend(tu)
    o = out or f"{workdir()}/{tu}.{'u' if unroll else 'c'}.{hashlib.md5(','.join([*fns, '#', *opaque]).encode()).hexdigest()[:8]}.ll"
    if os.path.exists(o): return o
    if opaque:
        ll2 = o + '.opq.ll'
        names = re.findall(r'^define .*?@"?([\w.$]+)"?\(', open(ll).read(), re.M)
        drop = [n for n in names if any(re.match(r, n) for r in opaque)]
        if drop:
            open(ll2 + ".lst", "w").write("\n".join(f"--func={n}" for n in drop))
            run(["llvm-extract-18", "-S", "-delete", f"@{ll2}.lst", ll, "-o", ll2]); ll = ll2
    loop = "loop-simplify,lcssa,loop(loop-unroll-full)," if unroll else ""
    tail = f"function({loop}sroa,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,simplifycfg)"
    pp = f"internalize,globaldce,inline,{SIMPL},inline,{SIMPL},inline,{tail},inline,{tail},globaldce"
    run(["opt-18", "-S", ll, f"-internalize-public-api-list={','.join(fns)}", f"-passes={pp}", "-inline-threshold=1000000",
         "-inlinehint-threshold=1000000", "-unroll-threshold=100000", "-o", o + ".tmp"])
    os.rename(o + ".tmp", o)
    return o

def linked(tu):
    """further project sources a harness needs natively (bounded contracts), named on its '// LINK:' lines"""
    return [x for l in open(f"{HERE}/contracts/{tu}.cpp") if l.startswith("// LINK:") for x in l[8:].split()]

def gxx(tu):
    """compile the native side with the project's own compiler (needed where values cross into NGSolve in a way on which
    the two compilers' calling conventions differ)"""
    return any(l.startswith("// NATIVE: g++") for l in open(f"{HERE}/contracts/{tu}.cpp"))

def compile_object(src, gcc=False):
    """a project source file, compiled as it is, for native use only"""
    global _sh
    o = f"{workdir()}/{'G' if gcc else 'L'}_{src.replace('/', '_')}.o"
    if os.path.exists(o): return o
    cache = os.environ.get("VC_CACHE"); cp = None
    if cache:
        if _sh is None: _sh = src_hash()
        cp = f"{cache}/{hashlib.sha256((_sh + ("g++" if gcc else "") + src).encode()).hexdigest()[:24]}.o"
        if os.path.exists(cp): shutil.copy(cp, o); return o
    run(["g++" if gcc else "clang++-18", *flags(), "-w", "-fPIC", "-fno-access-control", "-O1", "-ffp-contract=off", "-c", "-o", f"{o}.{os.getpid()}", f"{REPO}/src/{src}"])
    os.rename(f"{o}.{os.getpid()}", o)
    if cp: shutil.copy(o, cp + ".t"); os.rename(cp + ".t", cp)
    return o

def native(tu, opt="-O1"):
    gcc = gxx(tu)
    ll = None if gcc else frontend(tu)
    so = f"{workdir()}/{tu}.so"
    if os.path.exists(so): return so
    extra = []
    if linked(tu):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex: extra = list(ex.map(lambda x: compile_object(x, gcc), linked(tu)))
    libs = [f"-L{NGSLIB}", f"-Wl,-rpath,{NGSLIB}:{NGS}/lib", "-lngcomp", "-lngfem", "-lngla", "-lngbla", "-lngcore", "-Wl,--allow-shlib-undefined"]
    obj = f"{workdir()}/{tu}.o"
    if gcc: run(["g++", *flags(), f"-I{HERE}/contracts", "-w", "-fPIC", "-fno-access-control", opt, *(["-g"] if os.environ.get("VC_DEBUG") else []), "-ffp-contract=off", "-c", "-o", obj, f"{HERE}/contracts/{tu}.cpp"])
    else: run(["clang++-18", opt, "-fPIC", "-c", "-Wno-everything", "-o", obj, ll])
    # project functions that the contracts never reach are left out; a stub stops the process if one is called after all
    nm = lambda *a: [x.split() for x in run(["nm", "--format=posix", *a]).splitlines() if x.strip()]
    und = sorted({x[0] for o in (obj, *extra) for x in nm("-u", o) if x[1:2] == ["U"]})
    have = {x[0] for o in (obj, *extra) for x in nm("--defined-only", o) if x[1:]}
    for l in ("ngcomp", "ngfem", "ngla", "ngbla", "ngcore"): have |= {x.split()[0] for x in run(["nm", "-D", "--defined-only", "--format=posix", f"{NGSLIB}/lib{l}.so"]).splitlines() if x.strip()}
    und = [u for u in und if re.match(r"_Z.*(3amg|4ngla|5ngbla|6ngcomp|6ngcore)", u) and u not in have]
    st = f"{workdir()}/{tu}.stubs.s"
    with open(st, "w") as f:
        for u in und:
            data = u.startswith(("_ZTI", "_ZTV", "_ZTT", "_ZTS", "_ZGV"))
            f.write(f'.section {".data" if data else ".text"}\n.globl {u}\n.weak {u}\n{u}:\n' + (".zero 512\n" if data else "ud2\n"))
    run(["clang++-18", "-fPIC", "-shared", "-o", so + ".tmp", obj, *extra, st, *libs])
    os.rename(so + ".tmp", so)
    return so
