"""What every check shares: compiling the current source to IR, running the
analyser, and reporting."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CXX = "/usr/lib/llvm-18/bin/clang++"
JOBS = int(os.environ.get("VF_JOBS", "8"))

BASE = ["-std=c++20", "-DBOOST_DATE_TIME_NO_LIB", "-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL",
        "-DSPDLOG_SHARED_LIB", "-DJSON_HAS_THREE_WAY_COMPARISON=0", "-DFMT_DEPRECATED_OSTREAM", "-DFMT_CONSTEVAL=",
        "-DNDEBUG", "-g"]
PY = ["-DBOOST_PYTHON_DYN_LINK", "-DBOOST_PYTHON_NO_LIB", "-isystem", "/usr/include/python3.12", "-isystem",
      "/usr/lib/python3/dist-packages/numpy/core/include"]
RR = ["-isystem", "/usr/share/R/include", "-isystem", "/usr/lib/R/site-library/Rcpp/include"]
APP = ["-isystem", "/usr/include/docopt"]


class Broken(Exception):
    """The analysis could not be carried out: neither a pass nor a violation."""


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf-")
        atexit.register(shutil.rmtree, self.tmp, True)
        self.violations, self.known, self.notes, self.assumptions = [], [], [], []
        self.coverage = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(JOBS)
        self._bc = {}
        self.known_db = load_known(prop)
        self._version()

    # --- building
    def _version(self):
        g = os.path.join(self.tmp, "gen", "cppsas7bdat")
        os.makedirs(g)
        src = os.path.join(REPO, "include/cppsas7bdat/version.hpp.in")
        t = open(src).read() if os.path.exists(src) else ""
        for k, v in (("MAJOR", "1"), ("MINOR", "0"), ("PATCH", "1"), ("TWEAK", "0")):
            t = re.sub(r"@[A-Za-z_]*VERSION_%s@" % k, v, t)
        t = re.sub(r"@[A-Za-z_]*VERSION@", "1.0.1", t)
        t = re.sub(r"@[A-Za-z_0-9]*@", "", t)
        open(os.path.join(g, "version.hpp"), "w").write(t)

    def flags(self, extra=()):
        return BASE + ["-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s/gen" % self.tmp, "-I%s/probes" % VERIF] + list(extra)

    def tool(self, name="vf"):
        p = os.path.join(VERIF, "build", name)
        r = subprocess.run(["make", "-s", "-j%d" % JOBS, "-C", os.path.join(VERIF, "tool"), "../build/" + name],
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(p):
            raise Broken("the analyser does not build: " + r.stderr[-2000:])
        return p

    def compile(self, src, extra=(), name=None, opt=("-O1", "-Xclang", "-disable-llvm-passes"), must=True):
        """src: path (absolute, or relative to the repository) -> bitcode path"""
        path = src if os.path.isabs(src) else os.path.join(REPO, src)
        out = os.path.join(self.tmp, (name or os.path.basename(path)) + ".bc")
        r = subprocess.run([CXX] + self.flags(extra) + list(opt) + ["-emit-llvm", "-c", path, "-o", out],
                           capture_output=True, text=True)
        if r.returncode:
            if must:
                raise Broken("%s does not compile: %s" % (src, first_errors(r.stderr)))
            return None
        return out

    def compile_all(self, srcs):
        """[(src, extra)] -> paths, in parallel"""
        return list(self.pool.map(lambda s: self.compile(*s) if isinstance(s, tuple) else self.compile(s), srcs))

    def probe(self, name, extra=()):
        return self.compile(os.path.join(VERIF, "probes", name + ".cpp"), extra, name)

    # --- the numeric engine
    def bounds(self, entries, bcs, args=(), timeout=800, mode="bounds"):
        """Runs the analyser on each entry; {entry: result}"""
        vf = self.tool()

        def one(e):
            out = os.path.join(self.tmp, "j_" + e + "_" + str(abs(hash(tuple(args)))))
            try:
                r = subprocess.run([vf, "--entry", e, "--mode", mode, "--json", out] + list(args) + list(bcs),
                                   capture_output=True, text=True, timeout=timeout, errors="replace")
            except subprocess.TimeoutExpired:
                raise Broken("the analysis of %s did not finish in %d s" % (e, timeout))
            if r.returncode or not os.path.exists(out):
                raise Broken("the analysis of %s failed: %s" % (e, r.stderr[-1500:]))
            return e, json.load(open(out))

        return dict(self.pool.map(one, entries))

    # --- reporting
    def violation(self, key, text, **detail):
        """key: stable identity of the instance, matched against the known findings"""
        for k in self.known_db:
            if k["key"] == key:
                if key not in [x[0] for x in self.known]:
                    self.known.append((key, k["text"]))
                return
        if any(v["key"] == key and v["text"] == text for v in self.violations):
            return
        self.violations.append(dict(key=key, text=text, **detail))

    def floor(self, what, n, least):
        if n < least:
            raise Broken("only %d %s where at least %d are expected: the analysis does not see the code" % (n, what, least))

    def finish(self, level):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        rep = os.path.join(ev, self.prop + ".report.json")
        json.dump({"property": self.prop, "violations": self.violations, "known": self.known, "notes": self.notes},
                  open(rep, "w"), indent=1)
        e = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
             "coverage": self.coverage, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
             "violations": len(self.violations)}
        json.dump(e, open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)
        for k, t in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        for n in self.notes:
            print("note:", n)
        for v in self.violations[:12]:
            print("  %s" % v["text"])
            if v.get("path"):
                print("      path: %s" % v["path"])
        if len(self.violations) > 12:
            print("  ... and %d more in the report" % (len(self.violations) - 12))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        print("%s: held on everything analysed (%.1f s)" % (self.prop, time.time() - self.t0))
        return 0


def first_errors(s):
    l = [x for x in s.splitlines() if "error" in x]
    return " | ".join(l[:3]) or s[-400:]


def load_known(prop):
    r = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    r.append(d)
    return r
