#!/usr/bin/env python3
"""Builds and runs the checks. usage: check.py <PROPERTY>   (tier from VERIF_TIER)
       check.py --setup          compile everything once (a warm cache, optional)
"""
import glob, hashlib, json, os, re, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
sys.path.insert(0, HERE)

DEFS = ['-DPACKAGE_NAME="Fuxedo"', '-DVERSION="0.0.1"', '-DPACKAGE="fuxedo"',
        "-DHAVE_CXX17=1", "-DHAVE_CXX_FILESYSTEM=1",
        "-DHAVE_CXX_EXPERIMENTAL_FILESYSTEM=1",
        "-DCATCH_CONFIG_NO_POSIX_SIGNALS"]
INC = ["-I" + REPO + "/include", "-I" + REPO + "/src",
       "-I" + REPO + "/third_party/clara", "-I" + REPO + "/third_party/GSL",
       "-I" + HERE + "/lib", "-I" + HERE]
VARIANTS = {
    "plain": ("g++", ["-std=gnu++17", "-g", "-O1", "-w"]),
    "asan": ("g++", ["-std=gnu++17", "-g", "-O1", "-w", "-fsanitize=address",
                     "-fno-omit-frame-pointer"]),
    "o2": ("g++", ["-std=gnu++17", "-g", "-O2", "-w"]),
    "tsan": ("clang++", ["-std=gnu++17", "-g", "-O1", "-w",
                         "-fsanitize=thread", "-mllvm",
                         "-tsan-instrument-func-entry-exit=0"]),
    "clang": ("clang++", ["-std=gnu++17", "-g", "-O1", "-w"]),
    # the simulated processes: every memory access calls the simulator
    "sim": ("clang++", ["-std=gnu++17", "-g1", "-O1", "-w", "-fPIC", "-fno-builtin",
                        "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
                        "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE",
                        "-ftrivial-auto-var-init=pattern", "-I" + HERE + "/lib/sim"]),
    "simshim": ("clang++", ["-std=gnu++17", "-O2", "-w", "-fPIC", "-fno-builtin"]),
    "simmain": ("g++", ["-std=gnu++17", "-g1", "-O2", "-w", "-fvisibility=hidden",
                        "-fno-stack-protector", "-U_FORTIFY_SOURCE"]),
}


def lib_sources():
    """the library's source list, as the build defines it"""
    try:
        am = open(REPO + "/Makefile.am").read().replace("\\\n", " ")
        m = re.search(r"^src_libfuxedo_la_SOURCES\s*=\s*(.*)$", am, re.M)
        return m.group(1).split()
    except Exception:
        return sorted("src/" + os.path.basename(p)
                      for p in glob.glob(REPO + "/src/*.cpp"))


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for pat in ("/src/*.h", "/include/*"):
            for p in sorted(glob.glob(REPO + pat)):
                if os.path.isfile(p):
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
        for p in sorted(glob.glob(HERE + "/lib/*") + glob.glob(HERE + "/lib/sim/*.h")) + \
                sorted(glob.glob(HERE + "/checks/*.h")):
            if os.path.isfile(p):
                h.update(open(p, "rb").read())
        _hdr = h.hexdigest()
    return _hdr


class BuildError(Exception):
    pass


def compile_one(src, variant, extra=(), inc_repo_srcs=False, weaken=False):
    cc, flags = VARIANTS[variant]
    h = hashlib.sha256()
    h.update(header_hash().encode())
    h.update(open(src, "rb").read())
    if inc_repo_srcs:
        for p in sorted(glob.glob(REPO + "/src/*.cpp")):
            h.update(open(p, "rb").read())
    h.update(repr((src, cc, flags, DEFS, tuple(extra), weaken)).encode())
    out = os.path.join(BUILD, "obj", h.hexdigest()[:24] + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        ext = list(extra)
        if src.endswith(".c"):
            cc = {"g++": "gcc", "clang++": "clang"}[cc]
            flags = [f for f in flags if not f.startswith("-std=")]
        cmd = [cc] + flags + DEFS + INC + ext + ["-c", src, "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           cwd=HERE)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace"))
        if weaken:
            subprocess.run(["objcopy", "--weaken", tmp], check=True)
        os.rename(tmp, out)
    return out


def build(name, harness, variant="asan", repo_srcs=None, exclude=(), link=(),
          extra=(), repo_extra=(), harness_variant=None, inc_repo_srcs=False):
    """compile harness + repository sources from the working tree; returns the binary"""
    if repo_srcs is None:
        repo_srcs = lib_sources()
    repo_srcs = [s for s in repo_srcs if os.path.basename(s) not in exclude]
    jobs = []
    with ThreadPoolExecutor(max_workers=8) as ex:
        for s in harness:
            p = os.path.join(HERE, s)
            jobs.append(ex.submit(compile_one, p, harness_variant or variant,
                                  tuple(extra), inc_repo_srcs))
        for s in repo_srcs:
            jobs.append(ex.submit(compile_one, os.path.join(REPO, s), variant,
                                  tuple(repo_extra)))
        objs = [j.result() for j in jobs]
    cc, flags = VARIANTS[harness_variant or variant]
    h = hashlib.sha256(("\n".join(objs) + repr(link)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "bin", name + "-" + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = [cc] + [f for f in flags if f.startswith("-fsan")] + objs + \
              list(link) + ["-o", tmp, "-lstdc++fs", "-lpthread", "-ldl"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace"))
        os.rename(tmp, out)
        # keep only the newest few binaries of this name
        olds = sorted(glob.glob(os.path.join(BUILD, "bin", name + "-*")),
                      key=os.path.getmtime)[:-3]
        for o in olds:
            try:
                os.unlink(o)
            except OSError:
                pass
    return out


def build_sim(name, main, flavors):
    """the explorer plus one shared object per flavor of process;
    flavors: {name: (harness sources, [(repo source, its main renamed to)])}"""
    lib = lib_sources()
    with ThreadPoolExecutor(max_workers=8) as ex:
        jm = [ex.submit(compile_one, os.path.join(HERE, s), "simmain")
              for s in main + ["lib/sim/core.cpp"]]
        jl = [ex.submit(compile_one, os.path.join(REPO, s), "sim", (), False, True) for s in lib]
        shim = ex.submit(compile_one, HERE + "/lib/sim/shim.c", "simshim")
        jf = {}
        for f, (hs, rs) in flavors.items():
            jf[f] = [ex.submit(compile_one, os.path.join(HERE, s), "sim") for s in hs] + \
                    [ex.submit(compile_one, os.path.join(REPO, s), "sim", ("-Dmain=" + m[0],) + tuple(m[1:])) for s, *m in rs]
        mo = [j.result() for j in jm]
        lo = [j.result() for j in jl]
        so = shim.result()
        fo = {f: [j.result() for j in js] for f, js in jf.items()}

    def link(out_name, cmd, objs):
        h = hashlib.sha256(("\n".join(objs) + repr(cmd)).encode()).hexdigest()[:16]
        out = os.path.join(BUILD, "bin", out_name + "-" + h)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + ".%d.tmp" % os.getpid()
            c = cmd[:1] + objs + cmd[1:] + ["-o", tmp]
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError(" ".join(c) + "\n" + r.stdout.decode(errors="replace"))
            os.rename(tmp, out)
            for o in sorted(glob.glob(os.path.join(BUILD, "bin", out_name + "-*")),
                            key=os.path.getmtime)[:-3]:
                try:
                    os.unlink(o)
                except OSError:
                    pass
        return out

    exe = link(name, ["g++", "-rdynamic", "-ldl", "-lpthread"], mo)
    args = []
    for f in flavors:
        args.append("%s=%s" % (f, link(name + "_" + f, [
            "clang++", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,norelro", "-Wl,-z,now",
            "-lstdc++fs"], fo[f] + lo + [so])))
    return [exe] + args


def known(prop):
    """signatures of recorded findings: lines 'finding: property=<id> <sig> :: text'"""
    res = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) sig=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return res


class Outcome:
    """what the parts of one check found, merged"""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.violations = []
        self.parts = []
        self.extra = {}
        self.assumptions = []
        self.exhaustive = True
        self.errors = []

    def run(self, part, cmd, env=None, timeout=840 if TIER == "quick" else 9000, note=""):
        e = dict(os.environ)
        e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:"
                     "allocator_may_return_null=1:detect_odr_violation=0:"
                     "max_allocation_size_mb=2000")
        e["VERIF_TIER"] = TIER
        e["VERIF_SEED"] = str(SEED)
        # a safety stop; reaching it is reported as not exhaustive
        e.setdefault("MC_BUDGET", "400" if TIER == "quick" else "6000")
        e.update(env or {})
        t0 = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            self.errors.append("%s: no result within %d s" % (part, timeout))
            return None
        m = None
        for line in r.stdout.decode(errors="replace").splitlines():
            if line.startswith("RESULT "):
                m = json.loads(line[7:])
        if m is None:
            self.errors.append("%s: no result (rc=%s)\n%s\n%s" % (
                part, r.returncode, r.stdout.decode(errors="replace")[-2000:],
                r.stderr.decode(errors="replace")[-4000:]))
            return None
        self.add(part, m, time.time() - t0, note)
        return m

    def add(self, part, m, wall, note=""):
        self.states += m["states"]
        self.transitions += m["transitions"]
        self.validated += m["validated"]
        for s in m.get("samples", [])[:2]:
            self.samples.append({"part": part, "case": s})
        for v in m["violations"]:
            v["part"] = part
            self.violations.append(v)
        if m.get("truncated"):
            self.exhaustive = False
        p = {"part": part, "states": m["states"], "transitions": m["transitions"],
             "validated": m["validated"], "wall_s": round(wall, 2),
             "cut_short": m.get("truncated", 0)}
        for k in ("evaluations", "executions", "schedules", "crash_points", "faults"):
            if m.get(k):
                p[k] = m[k]
        for k, v in m.get("more", {}).items():
            p[k] = v
        if note:
            p["bounds"] = note
        self.parts.append(p)

    def finish(self):
        kf = known(self.prop)
        hit = {}
        new = []
        for v in self.violations:
            for sig, text in kf:
                if re.search(sig, v["sig"]):
                    hit[sig] = text
                    break
            else:
                new.append(v)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "samples": self.samples[:12], "exhaustive": self.exhaustive,
               "parts": self.parts}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        path = os.path.join(HERE, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(path + ".tmp", path)
        # every listed finding is reported while it is listed
        for sig, text in kf:
            print("KNOWN-FINDING: property=%s %s%s" % (
                self.prop, text, "" if sig in hit else " (not hit in this run)"))
        for p in self.parts:
            print("  %(part)s: states=%(states)d transitions=%(transitions)d "
                  "validated=%(validated)d %(wall_s).1fs" % p)
        if new:
            rd = os.path.join(HERE, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(new[:5]):
                rp = os.path.join(rd, "%s-%d.txt" % (self.prop, i))
                with open(rp, "w") as f:
                    f.write("property %s, part %s\nsignature: %s\n\n%s\n" % (
                        self.prop, v["part"], v["sig"], v["text"]))
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
                print("   [%s] %s" % (v["part"], v["sig"][:300]))
                print("   " + v["text"][:500].replace("\n", "\n   "))
            for e in self.errors:
                print("ERROR: " + e)
            return 1
        if self.errors:
            for e in self.errors:
                print("ERROR: " + e)
            return 2
        print("OK property=%s states=%d transitions=%d wall=%.1fs" % (
            self.prop, self.states, self.transitions, time.time() - self.t0))
        return 0


def main():
    import defs
    if sys.argv[1] == "--setup":
        for f in defs.SETUP:
            f()
        return 0
    prop = sys.argv[1]
    o = Outcome(prop)
    try:
        defs.CHECKS[prop](o)
    except BuildError as e:
        # the tree under test does not build: not a verdict on the property
        print("ERROR: build failed\n" + str(e)[-6000:])
        return 2
    return o.finish()


if __name__ == "__main__":
    # one import of this module under both names
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
