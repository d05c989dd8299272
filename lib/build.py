"""Content-addressed build of /repo's sources (never writes into /repo).

Objects are keyed by (compiler flags, digest of every header, digest of the source), so a check
always sees the current working tree and never a stale object, whatever the file times say.
"""
import hashlib, os, subprocess, sys, glob, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("NULLC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

# sources that belong to other targets (Windows only, LLVM back end)
NOT_CORE = ['Executor_LLVM', 'InstructionTreeVmTests', 'nullc_android']
CORE = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(REPO, "NULLC", "*.cpp")) if os.path.basename(f)[:-4] not in NOT_CORE)
# parts that the compiler alone (nullcl) is built without
NOT_COMPILER = ('CodeGenRegVm_X86', 'CodeGen_X86', 'Executor_Common', 'Executor_RegVm', 'Executor_X86', 'Instruction_X86', 'Linker', 'StdLib', 'Translator_X86')
NOT_LIBS = ['window']
LIBS = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(REPO, "NULLC/includes", "*.cpp")) if os.path.basename(f)[:-4] not in NOT_LIBS)
DYN = "dyncall_api.c dyncall_callvm.c dyncall_callvm_base.c dyncall_struct.c dyncall_vector.c dyncall_call.S".split()

VARIANTS = {
    # assertions on, like the project's own debug build
    "plain": dict(cxx="g++", cc="gcc", flags=["-O1", "-g1", "-fno-strict-aliasing"], link=[]),
    # assertions off + optimised: the project's "release" configuration
    "release": dict(cxx="g++", cc="gcc", flags=["-O2", "-DNDEBUG", "-fno-omit-frame-pointer"], link=[]),
    "asan": dict(cxx="clang++", cc="clang",
                 flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-strict-aliasing"],
                 link=["-fsanitize=address"]),
    "fuzz": dict(cxx="clang++", cc="clang",
                 flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,fuzzer-no-link", "-fno-strict-aliasing"],
                 link=["-fsanitize=address,fuzzer"]),
}

class BuildError(Exception):
    pass

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p); h.update(b"\0")
    return h.hexdigest()[:20]

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def _headers_digest():
    h = hashlib.sha256()
    for root in ("NULLC", "external/dyncall", "external/pugixml", "external/rapidjson"):
        for dp, dn, fn in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".S", ".inl")) or f == "pugixml.cpp":
                    p = os.path.join(dp, f)
                    h.update(os.path.relpath(p, REPO).encode()); h.update(_read(p))
    return h.hexdigest()

def _compile(job):
    cmd, out = job
    tmp = out + ".tmp%d.o" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    os.replace(tmp, out)

def build(variant, program, extra_sources, extra_flags=(), link_extra=(), with_lib=True, main_flags=(), compiler_only=False):
    """Compile the library in `variant` and link `program` from extra_sources; returns the binary's path."""
    v = VARIANTS[variant]
    objdir = os.path.join(BUILD, "obj"); os.makedirs(objdir, exist_ok=True)
    bindir = os.path.join(BUILD, "bin"); os.makedirs(bindir, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        hd = _headers_digest()
        flags = v["flags"] + list(extra_flags)
        jobs, objs = [], []
        def add(src, compiler, fl, need_headers=True):
            d = _sha(compiler, " ".join(fl), hd if need_headers else "", _read(src), src if need_headers else "")
            name = os.path.basename(src)
            out = os.path.join(objdir, "%s-%s-%s.o" % (variant, name, d))
            objs.append(out)
            if not os.path.exists(out):
                jobs.append(([compiler] + fl + ["-c", src], out))
        W = ["-w"]
        if with_lib:
            for c in CORE:
                if compiler_only and c.startswith(NOT_COMPILER): continue
                add(os.path.join(REPO, "NULLC", c + ".cpp"), v["cxx"], flags + W)
            for c in LIBS if not compiler_only else ():
                add(os.path.join(REPO, "NULLC/includes", c + ".cpp"), v["cxx"], flags + W)
            if not compiler_only: add(os.path.join(REPO, "external/pugixml/pugixml.cpp"), v["cxx"], flags + W)
            for c in DYN if not compiler_only else ():
                add(os.path.join(REPO, "external/dyncall", c), v["cc"], [f for f in flags if not f.startswith("-std")] + W)
        hh = "".join(_sha(_read(p)) for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))))
        for s in extra_sources:
            add(s, v["cxx"], flags + list(main_flags) + W + ["-I" + REPO, "-DHARNESS_H=\"%s\"" % _sha(hh)[:8]])
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0][-1]))
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            list(ex.map(_compile, jobs))
        exe = os.path.join(bindir, "%s-%s-%s" % (program, variant, _sha(*objs, *link_extra)))
        if not os.path.exists(exe):
            cmd = [v["cxx"], "-rdynamic", "-o", exe + ".tmp"] + objs + v["link"] + list(link_extra) + ["-lm", "-ldl"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError(r.stdout[-4000:])
            os.replace(exe + ".tmp", exe)
        _prune()
        return exe
    finally:
        lock.close()

def _prune(limit=2 << 30):
    """Keep the object cache bounded: drop the oldest entries over `limit` bytes."""
    ent = []
    for d in ("obj", "bin"):
        p = os.path.join(BUILD, d)
        for f in os.listdir(p):
            try:
                st = os.stat(os.path.join(p, f)); ent.append((st.st_mtime, st.st_size, os.path.join(p, f)))
            except OSError:
                pass
    total = sum(e[1] for e in ent)
    now = time.time()
    for m, s, p in sorted(ent):
        if total <= limit:
            break
        if now - m < 1800:
            continue
        try:
            os.unlink(p); total -= s
        except OSError:
            pass
