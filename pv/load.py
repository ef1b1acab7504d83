"""Runs the clang exporter over the repository and merges the result."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PION_REPO", "/repo")
TOOL = os.path.join(VERIF, "build", "export")
CACHE = os.path.join(VERIF, "build", "cache")

FLAGS = ("-resource-dir /usr/lib/llvm-18/lib/clang/18 -x c++ -std=c++11 -w "
         "-DBOOST_DISABLE_PRAGMA_MESSAGE -DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS "
         "-DPION_CMAKE_BUILD -DNDEBUG -include boost/logic/tribool_io.hpp").split()


class AnalysisError(Exception):
    """The analysis cannot give an answer (exit 2)."""


def build_tool():
    src = os.path.join(VERIF, "exporter", "export.cpp")
    stamp = TOOL + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    tmp = TOOL + ".%d" % os.getpid()
    r = subprocess.run(["clang++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions",
                        "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS",
                        "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
                        "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib",
                        "-lLLVM", "-Wl,-rpath,/usr/lib/llvm-18/lib"],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("exporter does not build: " + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    with open(stamp, "w") as f:
        f.write(h)


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for pat in ("src/*.cpp", "src/*.hpp", "include/**/*.hpp", "services/*.cpp", "services/*.hpp",
                "utils/*.cpp", "utils/*.hpp", "src/*.h", "include/**/*.h"):
        fs += glob.glob(os.path.join(REPO, pat), recursive=True)
    fs += glob.glob(os.path.join(VERIF, "shim/**/*.hpp"), recursive=True)
    fs += glob.glob(os.path.join(VERIF, "drivers/*"))
    fs.append(os.path.join(VERIF, "exporter", "export.cpp"))
    for f in sorted(fs):
        h.update(f.encode()); h.update(b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    h.update(" ".join(FLAGS).encode())
    return h.hexdigest()[:24]


def strip_targs(s):
    """drop template argument lists: std::map<...>::find -> std::map::find"""
    out, d, i = [], 0, 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "<" and not s[:i].endswith("operator") and not s[:i].endswith("operator<"):
            d += 1
        elif c == ">" and d > 0 and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


class Program:
    def __init__(self):
        self.funcs, self.records, self.enums, self.globals = {}, {}, {}, {}
        self.files = set()

    def merge(self, d):
        for k, v in d["funcs"].items():
            if k not in self.funcs:
                self.funcs[k] = v
                self.files.add(v["file"])
        for a in ("records", "enums", "globals"):
            t = getattr(self, a)
            for k, v in d[a].items():
                if k not in t:
                    t[k] = v

    def finish(self):
        self.by_name = {}
        for k, f in self.funcs.items():
            f["sfn"] = strip_targs(f["fn"])
            self.by_name.setdefault(f["sfn"], []).append(f)
            f["bmap"] = {b["id"]: b for b in f.get("blocks", [])}
            if f["file"].startswith(REPO):
                f["rel"] = os.path.relpath(f["file"], REPO)
            else:
                f["rel"] = f["file"]
            for n in f.get("nodes", []):
                if "fn" in n:
                    n["sfn"] = strip_targs(n["fn"])
                if n.get("un"): n["fq"] = n["fq"].rsplit("::", 1)[0] + "::<union>"
                if "fq" in n and n["fq"].startswith("std::pair<"):
                    n["fq"] = strip_targs(n["fq"])
        # overriders (transitive)
        self.overriders = {}
        for k, f in self.funcs.items():
            for o in f.get("overrides", []):
                self.overriders.setdefault(o, set()).add(k)
        # strings: enumerator values -> names per enum
        self.enum_by_value = {e: {i["v"]: i["name"] for i in d["items"]} for e, d in self.enums.items()}

    def fn(self, sname, pred=None):
        """functions with this (template-argument free) qualified name"""
        return [f for f in self.by_name.get(sname, []) if pred is None or pred(f)]

    def one(self, sname, pred=None):
        l = self.fn(sname, pred)
        if not l:
            raise AnalysisError("anchor function vanished: " + sname)
        return l[0]

    def record(self, name):
        if name not in self.records:
            raise AnalysisError("anchor record vanished: " + name)
        return self.records[name]

    def enum(self, name):
        for k, d in self.enums.items():
            if k == name:
                return {i["name"]: i["v"] for i in d["items"]}
        raise AnalysisError("anchor enum vanished: " + name)


def tus():
    r = []
    for pat in ("src/*.cpp", "services/*.cpp", "utils/*.cpp"):
        r += sorted(glob.glob(os.path.join(REPO, pat)))
    if len(r) < 20:
        raise AnalysisError("source files missing under " + REPO)
    r += sorted(glob.glob(os.path.join(VERIF, "drivers", "*.cpp")))
    return r


def load():
    build_tool()
    os.makedirs(CACHE, exist_ok=True)
    key = tree_hash()
    cdir = os.path.join(CACHE, key)
    os.makedirs(cdir, exist_ok=True)

    def run(f):
        out = os.path.join(cdir, os.path.basename(f) + ".json")
        if os.path.exists(out):
            return f, out, 0, ""
        tmp = out + ".%d.tmp" % os.getpid()
        args = [TOOL, f, tmp, REPO + "/," + VERIF + "/drivers/", "--"] + FLAGS + [
            "-I" + VERIF + "/shim", "-I" + REPO + "/include", "-I" + REPO + "/services"]
        r = subprocess.run(args, capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(tmp, out)
        return f, out, r.returncode, r.stderr

    p = Program()
    p.tus = tus()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, p.tus))
    for f, out, rc, err in res:
        if rc:
            raise AnalysisError("cannot parse %s: %s" % (f, err[-1500:]))
    for f, out, rc, err in res:
        with open(out) as fh:
            p.merge(json.load(fh))
    p.finish()
    # keep only the newest few cache entries
    ds = sorted(glob.glob(os.path.join(CACHE, "*")), key=os.path.getmtime)
    for d in ds[:-6]:
        if os.path.getmtime(d) > time.time() - 1800 and len(ds) < 60: continue      # another run may be using it
        for x in glob.glob(d + "/*"):
            try: os.unlink(x)
            except OSError: pass
        try: os.rmdir(d)
        except OSError: pass
    return p


if __name__ == "__main__":
    p = load()
    print(len(p.funcs), "functions", len(p.records), "records", len(p.files), "files")
