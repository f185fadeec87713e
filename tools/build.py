#!/usr/bin/env python3
"""Builds the simulator around the code in /repo's working tree.

build.py [plain|asan] -> prints the path of the binary.
Objects are cached by the hash of everything that goes into them, so a second
check does not compile again.
"""
import glob, hashlib, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
GXX = "/usr/bin/g++"


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode("utf8", "replace")


class BuildError(Exception):
    pass


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def build(variant):
    os.makedirs(os.path.join(OUT, "cache"), exist_ok=True)
    lock = open(os.path.join(OUT, "lock." + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = os.path.join(REPO, "stl-to-ps")
    repo_cc = sorted(f for f in glob.glob(src + "/*.cc")
                     if not f.endswith("_test.cc") and not f.endswith("test_main.cc"))
    repo_h = sorted(glob.glob(src + "/*.h"))
    shim_h = sorted(f for f in glob.glob(VERIF + "/shim/**", recursive=True) if os.path.isfile(f))
    sim_cc = sorted(glob.glob(VERIF + "/sim/*.cc"))
    sim_h = sorted(glob.glob(VERIF + "/sim/*.h"))
    env = digest(*[f + "\1" + read(f).decode("latin1") for f in shim_h], read(GXX)[:4096])
    rh = digest(*[f + "\1" + read(f).decode("latin1") for f in repo_h + [src + "/parser.y", src + "/lexer.l"]])
    sh = digest(*[f + "\1" + read(f).decode("latin1") for f in sim_h])

    gen = os.path.join(OUT, "gen-" + rh)
    if not os.path.exists(gen + "/done"):
        os.makedirs(gen + "/stl-to-ps", exist_ok=True)
        for cmd in (["bison", "--defines=stl-to-ps/parser.tab.h", "-o", "stl-to-ps/parser.tab.cc", src + "/parser.y"],
                    ["flex", "--header-file=stl-to-ps/lexer.yy.h", "-o", "stl-to-ps/lexer.yy.cc", src + "/lexer.l"]):
            rc, out = run(cmd, cwd=gen)
            if rc:
                raise BuildError(" ".join(cmd) + "\n" + out)
        open(gen + "/done", "w").close()
    # Locales in which numbers and letters look different: there are none
    # installed, so they are made here.
    for name, args in (("de_DE.UTF-8", ["-i", "de_DE", "-f", "UTF-8"]), ("de_DE", ["-i", "de_DE", "-f", "ISO-8859-1"]), ("tr_TR.UTF-8", ["-i", "tr_TR", "-f", "UTF-8"])):
        d = os.path.join(OUT, "locale", name)
        if os.path.exists(d):
            continue
        os.makedirs(os.path.dirname(d), exist_ok=True)
        tmp = d + ".tmp%d" % os.getpid()
        try:
            run(["localedef", "--no-archive"] + args + [tmp])
            os.rename(tmp, d)
        except OSError:
            pass  # the runs that would use it go without
    base = [GXX, "-std=c++17", "-g1", "-w", "-DEIGEN_INITIALIZE_MATRICES_BY_ZERO", "-I" + REPO, "-I" + gen,
            "-I" + VERIF + "/shim", "-I/usr/include/eigen3", "-no-pie", "-fno-pie", "-fno-pic"]
    san = []
    if variant == "asan":
        san = ["-fsanitize=address,bounds,null,alignment,object-size,bool,enum,return",
               "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
    jobs = []
    for f in repo_cc + [gen + "/stl-to-ps/parser.tab.cc", gen + "/stl-to-ps/lexer.yy.cc"]:
        fl = base + san + ["-O1", "-fsanitize-coverage=trace-pc"]
        b = os.path.basename(f)
        if b == "stl-to-ps-main.cc":
            fl += ["-Dmain=stl2ps_tool_main"]
        if b not in ("parser.tab.cc", "lexer.yy.cc", "parser.cc"):
            fl += ["-fno-exceptions"]  # as the repository's .bazelrc says
        jobs.append((f, fl, digest(env, rh, variant, " ".join(fl), read(f))))
    for f in sim_cc:
        fl = base + ["-O2", "-I" + VERIF + "/sim"] + (["-DSIM_ASAN"] if san else [])
        if san and os.environ.get("SIM_CHECKED") and os.path.basename(f) in ("gen.cc", "props.cc"):
            fl += san + ["-DSIM_CHECKED"]  # development: the explorer itself under the sanitizer
        deps = [env, sh, variant, " ".join(fl), read(f)]
        if b"stl-to-ps/" in read(f):
            deps.append(rh)
        jobs.append((f, fl, digest(*deps)))

    def one(j):
        f, fl, key = j
        o = os.path.join(OUT, "cache", key + ".o")
        if not os.path.exists(o):
            tmp = o + ".tmp%d" % os.getpid()
            rc, out = run(fl + ["-c", f, "-o", tmp])
            if rc and "-fno-exceptions" in fl and "exception handling disabled" in out:
                rc, out = run([x for x in fl if x != "-fno-exceptions"] + ["-c", f, "-o", tmp])
            if rc:
                raise BuildError(" ".join(fl) + " " + f + "\n" + out)
            os.rename(tmp, o)
        return o, key

    with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        objs = list(ex.map(one, jobs))
    key = digest(variant, *[k for _, k in objs])
    exe = os.path.join(OUT, "simrun-%s-%s" % (variant, key))
    if not os.path.exists(exe):
        absl = sorted(f for f in glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a") if "test_util" not in f)
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = [GXX, "-no-pie", "-rdynamic", "-o", tmp] + [o for o, _ in objs] + san[:1] + \
              ["-Wl,--start-group"] + absl + ["-Wl,--end-group", "-l:libre2.so.10", "-lpthread", "-ldl"]
        rc, out = run(cmd)
        if rc:
            raise BuildError(" ".join(cmd) + "\n" + out)
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    try:
        for v in sys.argv[1:] or ["plain", "asan"]:
            print(build(v))
    except BuildError as e:
        print("BUILD FAILED:", e, file=sys.stderr)
        sys.exit(2)
