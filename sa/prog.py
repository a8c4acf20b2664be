"""Loads the typed program dumped by sxa and indexes it."""
import hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SXA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisBroken(Exception):
    """The analysis cannot decide (program does not parse, an anchor is gone)."""


LIB_FILES = [
    "lib/common/cmdline.cpp", "lib/common/exithandler.cpp", "lib/common/log.cpp", "lib/common/rand.cpp",
    "lib/common/seed.cpp", "lib/common/utils.cpp", "lib/common/verbose.cpp", "lib/common/version.cpp",
    "lib/io/boostfd_file.cpp", "lib/io/create_file.cpp", "lib/io/disk_queued_file.cpp", "lib/io/file.cpp",
    "lib/io/fileperblock_file.cpp", "lib/io/iostats.cpp", "lib/io/mem_file.cpp", "lib/io/request.cpp",
    "lib/io/request_queue_impl_1q.cpp", "lib/io/request_queue_impl_qwqr.cpp",
    "lib/io/request_queue_impl_worker.cpp", "lib/io/request_with_state.cpp", "lib/io/request_with_waiters.cpp",
    "lib/io/serving_request.cpp", "lib/io/syscall_file.cpp", "lib/io/ufs_file_base.cpp", "lib/io/wbtl_file.cpp",
    "lib/io/wfs_file_base.cpp", "lib/io/wincall_file.cpp", "lib/mng/block_manager.cpp", "lib/mng/config.cpp",
    "lib/mng/disk_allocator.cpp", "lib/algo/async_schedule.cpp", "lib/io/mmap_file.cpp",
    "lib/io/simdisk_file.cpp", "lib/io/linuxaio_file.cpp", "lib/io/linuxaio_queue.cpp",
    "lib/io/linuxaio_request.cpp",
]


def extractor():
    """Path of the sxa binary, built when missing or out of date."""
    src = os.path.join(HERE, "sxa.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "sxa-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std=")]
    tmp = exe + ".%d" % os.getpid()
    cmd = ["clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-w"] + flags + [
        '-DSXA_RESOURCE_DIR="/usr/lib/llvm-18/lib/clang/18"', src, "-o", tmp,
        "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def config_dir(tmp):
    """Directory holding stxxl/bits/config.h: the build's, or one equal to the default configuration."""
    d = os.path.join(REPO, "_build", "include")
    if os.path.exists(os.path.join(d, "stxxl/bits/config.h")):
        return d
    return os.path.join(HERE, "stubs", "config")


def clang_args(tmp, std="c++11"):
    return ["-std=" + std, "-fopenmp=libgomp", "-isystem", os.path.join(HERE, "stubs"),
            "-D_LARGEFILE_SOURCE", "-D_FILE_OFFSET_BITS=64", "-D_LARGE_FILES",
            "-I" + config_dir(tmp), "-I" + os.path.join(REPO, "include"), "-I" + REPO, "-w"]


class TU:
    __slots__ = ("d", "types", "funs", "recs", "files", "name")


class Fun:
    """A function definition."""
    __slots__ = ("tu", "f", "b", "key", "fn", "n", "ct", "kind", "file", "line", "end", "params", "inits", "body", "rec", "cache")

    def __repr__(self):
        return "<%s %s:%d>" % (self.fn, self.file, self.line)


class Prog:
    def __init__(self):
        self.tus = []
        self.defs = {}        # usr -> Fun
        self.by_name = {}     # qualified name -> [Fun]
        self.recs = {}        # usr -> (tu, rec)
        self.recs_by_ct = {}  # class template name -> [(tu, rec)]
        self.globals = {}     # qualified name -> (tu, g)
        self.parsed = []

    # ---- loading
    def load(self, units, std="c++11", extra=()):
        exe = extractor()
        tmp = tempfile.mkdtemp(prefix="sxa.")
        try:
            args = clang_args(tmp, std) + list(extra)

            def one(i_u):
                i, u = i_u
                out = os.path.join(tmp, "%d.json" % i)
                r = subprocess.run([exe, out, u, REPO, os.path.join(HERE, "drivers")] + args,
                                   capture_output=True, text=True)
                if r.returncode or not os.path.exists(out):
                    raise AnalysisBroken("cannot parse %s:\n%s" % (u, r.stderr[-3000:]))
                return out
            with ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(one, enumerate(units)))
            for u, o in zip(units, outs):
                with open(o) as f:
                    self.add(u, json.load(f))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return self

    def add(self, name, d):
        tu = TU()
        tu.d = d
        tu.name = name
        tu.types = d["types"]
        tu.funs = d["funs"]
        tu.recs = d["recs"]
        tu.files = d["files"]
        self.tus.append(tu)
        self.parsed.append(name)
        for t in tu.types:
            t["tu"] = tu
        for r in tu.recs:
            r["tu"] = tu
            if r.get("def"):
                if r["u"] not in self.recs:
                    self.recs[r["u"]] = r
                    self.recs_by_ct.setdefault(r["ct"], []).append(r)
        for f in tu.funs:
            f["tu"] = tu
        for b in d["bodies"]:
            f = tu.funs[b["fi"]]
            if f["u"] in self.defs:
                continue
            x = Fun()
            x.tu = tu
            x.f = f
            x.b = b
            x.key = f["u"]
            x.fn = f["fn"]
            x.n = f["n"]
            x.ct = f.get("ct")
            x.kind = f["k"]
            x.file = tu.files[b["f"]]
            x.line = b["l"]
            x.end = b["le"]
            x.params = b["pv"]
            x.inits = b.get("in", [])
            x.body = b["b"]
            x.rec = tu.recs[f["rid"]] if "rid" in f else None
            x.cache = {}
            self.defs[x.key] = x
            self.by_name.setdefault(x.fn, []).append(x)
        for g in d["globals"]:
            g["tu"] = tu
            if g["q"] not in self.globals or "i" in g:
                self.globals[g["q"]] = g

    # ---- queries
    def find(self, fn, pred=None):
        r = self.by_name.get(fn, [])
        return [x for x in r if pred is None or pred(x)]

    def one(self, fn, pred=None):
        r = self.find(fn, pred)
        if not r:
            raise AnalysisBroken("anchor not found: " + fn)
        return r[0]

    def rec(self, ct):
        r = self.recs_by_ct.get(ct)
        if not r:
            raise AnalysisBroken("class not found: " + ct)
        return r[0]

    def canon(self, rec):
        return self.recs.get(rec["u"], rec)

    def bases(self, rec):
        rec = self.canon(rec)
        return [self.canon(rec["tu"].recs[i]) for i, v in rec.get("bs", [])]

    def all_bases(self, rec):
        out, todo = [], [rec]
        while todo:
            r = todo.pop(0)
            for b in self.bases(r):
                if b["u"] not in [x["u"] for x in out]:
                    out.append(b)
                    todo.append(b)
        return out

    def derived_from(self, rec, ct):
        return rec["ct"] == ct or any(b["ct"] == ct for b in self.all_bases(rec))

    def fields(self, rec, inherited=True):
        """[(owner ct, field dict)]"""
        rec = self.canon(rec)
        out = []
        if inherited:
            for b in self.all_bases(rec)[::-1]:
                out += [(b["ct"], f, b) for f in b.get("fs", [])]
        out += [(rec["ct"], f, rec) for f in rec.get("fs", [])]
        return out

    def methods(self, rec):
        rec = self.canon(rec)
        return [rec["tu"].funs[i] for i in rec.get("ms", [])]

    def resolve_virtual(self, rec, f):
        """Final overrider of declaration f in dynamic class rec."""
        seen = set()

        def overrides(m, target):
            if m["u"] == target:
                return True
            for i in m.get("ov", []):
                if overrides(m["tu"].funs[i], target):
                    return True
            return False
        todo = [rec]
        while todo:
            r = todo.pop(0)
            if r["u"] in seen:
                continue
            seen.add(r["u"])
            for m in self.methods(r):
                if m["k"] in ("method", "dtor", "conv") and overrides(m, f["u"]):
                    return m
            todo += self.bases(r)
        return f


def rel(path):
    p = os.path.abspath(path)
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p
