#!/usr/bin/env python3
"""Builds one check against /repo's current working tree and runs it.

usage: run.py <property> [--tier quick|thorough] [engine options: --cases N --seed N --replay FILE --case I ...]
       run.py --build-all          (setup_cmd: build every check once)
Objects are cached under /verif/build by the content of everything they are compiled from.
"""
import glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = 8

LIBFLAGS = ["-std=c++11", "-include", "cassert", "-include", "cstdint", "-w"]
CHKFLAGS = ["-std=c++17", "-include", "cassert", "-include", "cstdint", "-Wall", "-Wno-unused-function", "-Wno-sign-compare",
            "-Wno-unused-variable", "-Wno-unused-but-set-variable", "-Wno-maybe-uninitialized", "-Wno-uninitialized", "-Wno-misleading-indentation"]
FLAVOURS = {
    "opt": ["-g1", "-O2"],
    "asan": ["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"],
    "tsan": ["-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "count": ["-g1", "-O2", "-fno-tree-vectorize"],
}
# property -> (flavour, extra sources in /verif/checks, link flags)
CHECKS = {}
for f in sorted(glob.glob(os.path.join(VERIF, "checks", "C*.cpp"))):
    CHECKS[os.path.basename(f)[:-4]] = "opt"
CHECKS.update({k: v for k, v in {"C20": "asan", "C22": "tsan", "C28": "count"}.items() if k in CHECKS})


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def content(path):
    with open(path, "rb") as f:
        return f.read()


def compile_one(src, flags, deps, cxx="g++"):
    key = sha(content(src), " ".join(flags), src, deps)
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx, "-c", src, "-o", tmp] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return obj, r.stdout
        if r.stdout.strip() and "/verif/" in src:
            sys.stderr.write(r.stdout)
        os.replace(tmp, obj)
    os.utime(obj)
    return obj, None


def build(prop, quiet=False):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    fl = FLAVOURS[CHECKS[prop]]
    hdr = sorted(glob.glob(REPO + "/include/*.h*") + glob.glob(REPO + "/src/*.h*"))
    repodeps = sha(*[content(h) for h in hdr])
    vdeps = sha(*[content(h) for h in sorted(glob.glob(VERIF + "/engine/*.hpp") + glob.glob(VERIF + "/shim/ftk/*/*") + glob.glob(VERIF + "/checks/*.hpp"))])
    inc = ["-I" + REPO + "/include", "-I" + VERIF + "/shim"]
    jobs = []
    for s in sorted(glob.glob(REPO + "/src/*.cpp")):
        jobs.append((s, LIBFLAGS + fl + (["-fsanitize-coverage=trace-pc"] if CHECKS[prop] == "count" else []) + ["-fPIC"] + inc, repodeps + (vdeps if "cp_preserve_3d" in s else "")))
    jobs.append((VERIF + "/engine/engine.cpp", CHKFLAGS + fl + ["-I" + VERIF + "/engine"], vdeps))
    sanit = CHECKS[prop] in ("asan", "tsan")
    if sanit:
        jobs.append((VERIF + "/engine/bigmem.cpp", CHKFLAGS + fl, vdeps))
    chk = VERIF + "/checks/" + prop + ".cpp"
    srctext = content(chk).decode()
    m = re.search(r"//\s*link:(.*)", srctext)
    link = m.group(1).split() if m else []
    if sanit:
        link.append("-Wl,--wrap=malloc,--wrap=calloc,--wrap=free,--wrap=realloc")
    if CHECKS[prop] == "count":
        link.append("-Wl,--wrap=memset,--wrap=memcpy,--wrap=memmove")
    # a check that includes library sources directly depends on all of them
    srcdeps = sha(*[content(s) for s in sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/test/*.cpp"))]) if "REPO_SRC" in srctext else ""
    jobs.append((chk, CHKFLAGS + fl + ["-I" + VERIF + "/engine", "-I" + VERIF + "/checks", "-I" + REPO] + inc, vdeps + repodeps + srcdeps))
    # the command-line programs, for the check that runs them
    tools = re.findall(r"//\s*tool:\s*(\S+)", srctext)
    tooljobs = [(REPO + "/test/" + t + ".cpp", LIBFLAGS + fl + inc, repodeps) for t in tools]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
        tres = list(ex.map(lambda j: compile_one(*j), tooljobs))
    errs = [e for _, e in res + tres if e]
    if errs:
        sys.stdout.write("\n".join(errs))
        print("%s: does not compile" % prop)
        return None
    libobjs = sorted(o for (o, _), j in zip(res, jobs) if j[0].startswith(REPO + "/src/"))
    objs = libobjs + sorted(o for o, _ in res if o not in libobjs)   # the library's copy of an inline function is the one linked
    for t, (o, _) in zip(tools, tres):
        texe = os.path.join(BUILD, "bin", t + "-" + sha(o, *libobjs))
        if not os.path.exists(texe):
            tmp = texe + ".%d.tmp" % os.getpid()
            r = subprocess.run(["g++"] + fl + ["-o", tmp, o] + libobjs + ["-lzstd", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout)
                return None
            os.replace(tmp, texe)
        os.utime(texe)
        os.environ["VP_TOOL_" + t] = texe
    # the frozen copy of the library, hidden in a shared object of its own
    if re.search(r"^//\s*ref:", srctext, re.M):
        so = build_ref(vdeps, fl)
        if not so:
            return None
        objs.append(so)
        link.append("-Wl,-rpath," + os.path.dirname(so))
    exe = os.path.join(BUILD, "bin", prop + "-" + sha(*objs, " ".join(link)))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + fl + ["-o", tmp] + objs + ["-lzstd", "-lpthread", "-ldl"] + link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout)
            return None
        os.replace(tmp, exe)
    os.utime(exe)
    return exe


def build_ref(vdeps, fl):
    ref = VERIF + "/ref"
    deps = vdeps + sha(*[content(h) for h in sorted(glob.glob(ref + "/include/*"))])
    inc = ["-I" + ref + "/include", "-I" + VERIF + "/shim"]
    hide = ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-fno-gnu-unique"]
    jobs = [(s, LIBFLAGS + fl + hide + inc, deps) for s in sorted(glob.glob(ref + "/src/*.cpp"))]
    jobs.append((ref + "/glue.cpp", CHKFLAGS + fl + hide + ["-I" + VERIF + "/engine"] + inc, deps))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    errs = [e for _, e in res if e]
    if errs:
        sys.stdout.write("\n".join(errs))
        return None
    objs = sorted(o for o, _ in res)
    so = os.path.join(BUILD, "bin", "libref-" + sha(*objs) + ".so")
    if not os.path.exists(so):
        vs = os.path.join(BUILD, "ref.map.%d" % os.getpid())
        with open(vs, "w") as f:
            f.write("{ global: vp_ref_*; local: *; };\n")
        tmp = so + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,--version-script=" + vs, "-o", tmp] + objs + ["-lzstd"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.remove(vs)
        if r.returncode:
            print(r.stdout)
            return None
        os.replace(tmp, so)
    os.utime(so)
    return so


def prune():
    # keep the cache small: objects not used for a day
    import time
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                if time.time() - os.path.getmtime(f) > 6 * 3600:
                    os.remove(f)
            except OSError:
                pass


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        ok = True
        for p in CHECKS:
            ok = bool(build(p)) and ok
        return 0 if ok else 2
    if not a or a[0] not in CHECKS:
        print("unknown property", a[:1], "known:", " ".join(CHECKS))
        return 2
    prop = a[0]
    exe = build(prop)
    if not exe:
        return 2
    prune()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_malloc_fill_size=65536:malloc_fill_byte=190:quarantine_size_mb=32:handle_abort=0:detect_odr_violation=0"
    env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:history_size=2"
    env["VP_REPO"] = REPO
    env["VP_VERIF"] = VERIF
    cmd = [exe, "--evidence", os.path.join(VERIF, "evidence", prop + ".json"), "--out", os.path.join(VERIF, "out")] + a[1:]
    if "--replay" in a or "--case" in a:
        cmd = [exe] + a[1:]
    return subprocess.run(cmd, env=env, cwd=VERIF).returncode


if __name__ == "__main__":
    sys.exit(main())
