"""C++ facts: resolved (template-instantiated) declarations and bodies of the simulator and of its
bindings, extracted from the current sources by tools/cxxfacts.cpp (clang LibTooling).

A translation unit is re-parsed whenever any repository file it includes (closure over #include) or
the extractor changed; otherwise the facts stored under cache/<digest> are used.  The thorough tier
ignores the stored facts.
"""
import gzip
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .program import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
RPU = SRC + "/rpucuda"
BIND = SRC + "/aihwkit/simulator/rpu_base_src"
EXT = SRC + "/aihwkit/extension/extension_src"
VENV = "/opt/venv"
SITE = VENV + "/lib/python3.12/site-packages"
FLAGS = ["-DRPU_USE_OPENBLAS", "-DRPU_USE_WITH_TORCH", "-D_GLIBCXX_USE_CXX11_ABI=1", "-std=gnu++17", "-fPIC", "-w",
         "-I" + VENV + "/include", "-I/usr/include/python3.12", "-I" + SITE + "/pybind11/include", "-I" + SITE + "/torch/include",
         "-I" + SITE + "/torch/include/torch/csrc/api/include", "-I" + RPU, "-I/usr/lib/llvm-18/lib/clang/18/include"]
TOOL_SRC = VERIF + "/tools/cxxfacts.cpp"
CACHE = VERIF + "/cache"


def rpu_units():
    return sorted(RPU + "/" + f for f in os.listdir(RPU) if f.endswith(".cpp") and not f.endswith("_test.cpp"))


def bind_units():
    return sorted(BIND + "/" + f for f in os.listdir(BIND) if f.endswith(".cpp") and not f.endswith("_cuda.cpp"))


def ext_units():
    out = []
    for d, _, fs in os.walk(EXT):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


_INC = re.compile(rb'^\s*#\s*include\s*"([^"]+)"', re.M)


def closure(path):
    seen, todo = {}, [path]
    while todo:
        p = os.path.normpath(todo.pop())
        if p in seen or not os.path.isfile(p):
            continue
        with open(p, "rb") as f:
            seen[p] = f.read()
        for inc in _INC.findall(seen[p]):
            inc = inc.decode()
            for d in (os.path.dirname(p), RPU, RPU + "/cuda", BIND, EXT, EXT + "/ops"):
                q = os.path.join(d, inc)
                if os.path.isfile(q):
                    todo.append(q)
                    break
    return seen


def _toolsha():
    with open(TOOL_SRC, "rb") as f:
        return hashlib.sha256(f.read() + " ".join(FLAGS).encode()).hexdigest()


def digest(path):
    h = hashlib.sha256(_toolsha().encode())
    for p, data in sorted(closure(path).items()):
        h.update(os.path.relpath(p, REPO).encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()[:32]


def build_tool(workdir):
    out = os.path.join(workdir, "cxxfacts")
    local = VERIF + "/build/cxxfacts-" + _toolsha()[:16]
    if os.path.exists(local):
        return local
    cmd = ["clang++", "-O1", "-fno-rtti", "-std=c++17", "-w", "-I/usr/lib/llvm-18/include", TOOL_SRC, "-o", out, "-L/usr/lib/llvm-18/lib",
           "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the fact extractor: " + r.stderr[-2000:])
    try:
        os.makedirs(os.path.dirname(local), exist_ok=True)
        shutil.copy(out, local + ".tmp%d" % os.getpid())
        os.replace(local + ".tmp%d" % os.getpid(), local)
    except OSError:
        pass
    return out


class Facts:
    def __init__(self):
        self.records, self.enums, self.funcs = {}, {}, {}
        self.units, self.parsed, self.cached = [], 0, 0

    def add(self, o):
        if o["k"] == "record":
            self.records.setdefault(o["name"], o)
        elif o["k"] == "enum":
            self.enums.setdefault(o["name"], o)
        else:
            key = (o.get("cls", ""), o["n"], o["ty"], o["kind"], "" if o.get("cls") else o.get("file", ""))
            self.funcs.setdefault(key, o)

    def of_class(self, cls, name=None, kind=None):
        return [f for f in self.by_cls().get(cls, []) if (name is None or f["n"] == name) and (kind is None or f["kind"] == kind)]

    def by_cls(self):
        if not hasattr(self, "_bc"):
            self._bc = {}
            for f in self.funcs.values():
                self._bc.setdefault(f.get("cls", ""), []).append(f)
        return self._bc

    def free(self, name):
        return [f for f in self.funcs.values() if not f.get("cls") and f["n"] == name]

    def bases(self, cls):
        """All ancestors, nearest first."""
        out, todo = [], list(self.records.get(cls, {}).get("bases", []))
        while todo:
            b = todo.pop(0)
            if b not in out:
                out.append(b)
                todo += self.records.get(b, {}).get("bases", [])
        return out

    def is_sub(self, cls, base):
        return cls == base or base in self.bases(cls)

    def method(self, cls, name):
        """Method found by lookup along the base chain: list of overloads in the first class that has it."""
        for c in [cls] + self.bases(cls):
            fs = self.of_class(c, name)
            if fs:
                return fs
        return []


def load(units, thorough=False):
    facts = Facts()
    todo, data = [], {}
    for u in units:
        d = digest(u)
        p = os.path.join(CACHE, d + ".gz")
        if not thorough and os.path.exists(p):
            with gzip.open(p, "rt") as f:
                data[u] = f.read()
            facts.cached += 1
        else:
            todo.append((u, p))
    if todo:
        work = tempfile.mkdtemp(prefix="cxxfacts")
        try:
            tool = build_tool(work)

            def one(job):
                u, p = job
                out = os.path.join(work, hashlib.md5(u.encode()).hexdigest() + ".jsonl")
                r = subprocess.run([tool, out, u, "--root=" + SRC + "/", "--"] + FLAGS, capture_output=True, text=True)
                if r.returncode:
                    return u, p, None, r.stderr[-3000:]
                with open(out) as f:
                    return u, p, f.read().replace(REPO + "/", ""), ""
            with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
                for u, p, txt, err in ex.map(one, todo):
                    if txt is None:
                        raise AnalysisBroken("cannot parse %s: %s" % (u, err))
                    data[u] = txt
                    if os.environ.get("VERIF_UPDATE_CACHE"):
                        os.makedirs(CACHE, exist_ok=True)
                        with open(p, "wb") as raw, gzip.GzipFile("", "wb", 9, raw, 0) as f:
                            f.write(txt.encode())
        finally:
            shutil.rmtree(work, ignore_errors=True)
        facts.parsed = len(todo)
    for u in units:
        facts.units.append(os.path.relpath(u, REPO))
        for line in data[u].splitlines():
            facts.add(json.loads(line))
    for r in facts.records.values():        # bases are printed without the enclosing namespace
        ns = r["name"].split("<")[0].rpartition("::")[0]
        r["bases"] = [b if b in facts.records else (ns + "::" + b if ns + "::" + b in facts.records else b) for b in r.get("bases", [])]
    return facts


if __name__ == "__main__":      # refresh the stored facts
    os.environ["VERIF_UPDATE_CACHE"] = "1"
    us = rpu_units() + bind_units()
    keep = {digest(u) + ".gz" for u in us}
    load(us)
    for f in os.listdir(CACHE):
        if f not in keep:
            os.unlink(os.path.join(CACHE, f))
    print(len(us), "units")
