"""Extraction and loading of the resolved program.

`load(units)` runs the knpfacts front end (libTooling) over the requested translation units of /repo's *current* working
tree and merges what they contain into one Program: functions (with typed bodies), records, enums, globals, aliases.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("KNP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18"
K = "knp/"
CPU = K + "backends/cpu/"

UNITS = {
    "core": [K + "core-library/impl/" + x for x in (
        "backend.cpp", "device.cpp", "population.cpp", "uid.cpp", "projection.cpp", "message_bus.cpp",
        "message_endpoint.cpp", "message_bus_zmq_impl/message_bus_zmq_impl.cpp",
        "message_bus_zmq_impl/message_endpoint_zmq_impl.cpp", "message_bus_cpu_impl/message_bus_cpu_impl.cpp",
        "message_header.cpp", "messaging/message_envelope.cpp", "messaging/spike_message.cpp",
        "messaging/synaptic_impact_message.cpp", "subscription.cpp")],
    "devices": [CPU + "cpu-devices/impl/unknown_cpu.cpp"],
    "pool": [CPU + "thread_pool/impl/thread_pool_context.cpp"],
    "mt": [CPU + "cpu-multi-threaded-backend/impl/backend.cpp", CPU + "cpu-multi-threaded-backend/impl/get_network.cpp"],
    "st": [CPU + "cpu-single-threaded-backend/impl/backend.cpp",
           CPU + "cpu-single-threaded-backend/impl/get_network.cpp"],
    "fw": [K + "base-framework/impl/" + x for x in (
        "backend_loader.cpp", "network.cpp", "model.cpp", "model_executor.cpp", "model_loader.cpp",
        "message_handlers.cpp", "input_converter.cpp", "output_channel.cpp", "synchronization.cpp",
        "monitoring/model.cpp", "network_validation/executor.cpp", "network_validation/validators/connectivity.cpp",
        "projection/wta.cpp", "data_processing/classification/dataset.cpp", "data_processing/classification/image.cpp",
        "inference_evaluation/perfomance_metrics.cpp", "inference_evaluation/classification/processor.cpp",
        "observer.cpp", "logging.cpp")],
    "store": [K + "base-framework/impl/storage/native/data_storage_common.cpp"],
    "pycore": [K + "python-framework/impl/core/cpp/" + x for x in (
        "backend.cpp", "core.cpp", "device.cpp", "message_bus.cpp", "message_endpoint.cpp", "message_envelope.cpp",
        "message_header.cpp", "messaging.cpp", "population.cpp", "projection.cpp", "spike_message.cpp",
        "subscription.cpp", "synaptic_impact_message.cpp", "uid.cpp")],
    "pytraits": [K + "python-framework/impl/" + x for x in (
        "neuron_traits/cpp/altai_lif.cpp", "neuron_traits/cpp/blifat.cpp", "neuron_traits/cpp/neuron_traits.cpp",
        "neuron_traits/cpp/resource_stdp_blifat.cpp", "synapse_traits/cpp/delta.cpp",
        "synapse_traits/cpp/resource_stdp_delta.cpp", "synapse_traits/cpp/synapse_traits.cpp")],
    "pyfw": [K + "python-framework/impl/base_framework/cpp/" + x for x in (
        "base_framework.cpp", "input_channel.cpp", "model.cpp", "model_executor.cpp", "model_loader.cpp", "network.cpp",
        "observer.cpp", "output_channel.cpp")],
    # Driver units of this framework: they instantiate header-only templates of the repository, nothing else.
    "drv": ["@drivers/creators.cpp", "@drivers/framework_templates.cpp"],
}

INCLUDES = [
    K + "base-framework/include", K + "core-library/include", K + "core-library/impl",
    K + "neuron-traits-library/include", K + "meta-library/include", K + "synapse-traits-library/include",
    CPU + "cpu-multi-threaded-backend/include", CPU + "cpu-single-threaded-backend/include",
    CPU + "cpu-devices/include", CPU + "cpu-library/include", CPU + "cpu-library/impl", CPU + "thread_pool/include",
    K + "python-framework/include", K + "base-framework/impl",
]
FBS = K + "core-library/impl/messaging/fbs"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (front end failed, anchor vanished): an error exit, never a verdict."""


def tool_path():
    """Build (once per source version) and return the front end."""
    src = os.path.join(VERIF, "tool", "knpfacts.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    bdir = os.path.join(VERIF, "build")
    out = os.path.join(bdir, "knpfacts-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(bdir, exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = [LLVM + "/bin/clang++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the front end:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def gen_headers(tmp):
    """Regenerate the flatbuffers headers from the current schemas (scratch directory, /repo is not written)."""
    d = os.path.join(tmp, "gen", "knp_gen_headers")
    os.makedirs(d, exist_ok=True)
    fbs_dir = os.path.join(REPO, FBS)
    files = sorted(f for f in os.listdir(fbs_dir) if f.endswith(".fbs"))
    cmd = ["flatc", "--cpp", "-o", d, "-I", fbs_dir]
    args = [os.path.join(fbs_dir, f) for f in files]
    built = os.path.join(REPO, "_build/knp/core-library/knp-core_messaging/knp_gen_headers")
    r = subprocess.run(cmd + args, capture_output=True, text=True)
    if r.returncode:
        if os.path.isdir(built):
            shutil.copytree(built, d, dirs_exist_ok=True)
        else:
            raise AnalysisBroken("flatc failed: " + r.stderr[-2000:])
    return os.path.join(tmp, "gen")


def flags(gen):
    f = ["-std=c++17", "-fPIC", "-DNDEBUG", "-DFMT_SHARED", "-DSPDLOG_ACTIVE_LEVEL=0", "-DSPDLOG_FMT_EXTERNAL", "-w",
         "-resource-dir", LLVM + "/lib/clang/18", "-DKNP_FULL_LIBRARY_NAME=libknp_x", "-DKNP_LIBRARY_NAME=knp_x",
         "-DKNP_LIBRARY_NAME_PREFIX=lib", "-D_KNP_INTERNAL", "-D_KNP_BUILD_SHARED_LIBS", "-ferror-limit=20"]
    for i in INCLUDES:
        f.append("-I" + os.path.join(REPO, i))
    f += ["-I" + gen, "-isystem", "/usr/include/opencv4", "-isystem", "/usr/include/python3.12"]
    return f


class Fn:
    __slots__ = ("tu", "meta", "params", "body", "ci", "file", "line", "eline", "implicit", "dflt", "id", "qn")

    def __init__(self, tu, o, meta):
        self.tu = tu
        self.meta = meta
        self.params = o["p"]
        self.body = o["b"]
        self.ci = o.get("ci")
        self.file = o["file"]
        self.line = o["line"]
        self.eline = o["eline"]
        self.implicit = o.get("implicit", False)
        self.dflt = o.get("dflt", False)
        self.id = meta["id"]
        self.qn = meta["qn"]

    @property
    def cls(self):
        return self.meta.get("cls")

    @property
    def clst(self):
        return self.meta.get("clst") or self.meta.get("cls")

    @property
    def name(self):
        return self.qn.rsplit("::", 1)[-1]

    def label(self):
        return self.meta.get("clst", "") + "::" + self.name if self.meta.get("clst") else self.qn + self.meta.get("ta", "")

    def where(self):
        return "%s:%d" % (self.file, self.line)

    def ptype(self, i):
        return self.tu.types[self.params[i]["t"]]

    def __repr__(self):
        return "<Fn %s %s>" % (self.label(), self.where())


class TU:
    def __init__(self, name, d):
        self.name = name
        self.types = d["types"]
        self.fns = d["fns"]


class Program:
    def __init__(self):
        self.units = []
        self.functions = {}
        self.by_qn = {}
        self.records = {}
        self.records_by_qn = {}
        self.enums = {}
        self.globals = {}
        self.aliases = {}

    def add(self, name, d):
        tu = TU(name, d)
        self.units.append(name)
        for o in d["functions"]:
            meta = tu.fns[o["f"]]
            fid = meta["id"]
            if meta.get("lam") or "@" in fid:
                key = fid
            else:
                key = fid
            if key in self.functions:
                continue
            f = Fn(tu, o, meta)
            self.functions[key] = f
            self.by_qn.setdefault(f.qn, []).append(f)
        for r in d["records"]:
            if r["t"] in self.records:
                continue
            r = dict(r)
            r["f"] = [dict(x, ty=tu.types[x["t"]], tu=tu) for x in r["f"]]
            r["td"] = {x["n"]: tu.types[x["t"]] for x in r["td"]}
            r["m"] = [tu.fns[i] for i in r["m"]]
            self.records[r["t"]] = r
            self.records_by_qn.setdefault(r["qn"], []).append(r)
        for e in d["enums"]:
            self.enums.setdefault(e["qn"], e)
        for g in d["globals"]:
            g = dict(g, ty=tu.types[g["t"]], tu=tu)
            self.globals.setdefault(g["qn"], g)
        for a in d["aliases"]:
            self.aliases.setdefault(a["qn"], tu.types[a["t"]])

    # -------------------------------------------------------------- queries
    def fn(self, qn, pred=None, required=True):
        fs = [f for f in self.by_qn.get(qn, []) if pred is None or pred(f)]
        if not fs and required:
            raise AnalysisBroken("anchor vanished: no definition of %s in %d units" % (qn, len(self.units)))
        return fs

    def one(self, qn, pred=None):
        fs = self.fn(qn, pred)
        return fs[0]

    def methods(self, cls):
        pre = cls + "::"
        return [f for f in self.functions.values() if f.cls == cls]

    def record(self, qn, required=True):
        rs = self.records_by_qn.get(qn, [])
        if not rs and required:
            raise AnalysisBroken("anchor vanished: no record " + qn)
        return rs

    def enum(self, qn):
        if qn not in self.enums:
            raise AnalysisBroken("anchor vanished: no enum " + qn)
        return self.enums[qn]


_cache = {}


def _cache_dir():
    d = os.environ.get("KNPA_CACHE")
    return d


def _tree_key(tool, fl):
    h = hashlib.sha256()
    h.update(tool.encode())
    h.update(" ".join(x for x in fl if "/tmp" not in x).encode())
    for root, dirs, fs in sorted(os.walk(os.path.join(REPO, "knp"))):
        dirs.sort()
        if "/tests" in root:
            continue
        for f in sorted(fs):
            if f.endswith((".h", ".cpp", ".fbs", ".hpp")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for root, _, fs in sorted(os.walk(os.path.join(VERIF, "drivers"))):
        for f in sorted(fs):
            h.update(open(os.path.join(root, f), "rb").read())
    return h.hexdigest()[:24]


def load(groups):
    """groups: names in UNITS.  Returns a Program; raises AnalysisBroken if a unit does not parse."""
    files = []
    for g in groups:
        for f in UNITS[g]:
            if f not in files:
                files.append(f)
    tool = tool_path()
    tmp = tempfile.mkdtemp(prefix="knpa-")
    try:
        gen = gen_headers(tmp)
        fl = flags(gen)
        cdir = _cache_dir()
        key = None
        if cdir:
            key = _tree_key(tool, fl)
            os.makedirs(cdir, exist_ok=True)

        def run(ix_f):
            ix, f = ix_f
            path = os.path.join(VERIF, f[1:]) if f.startswith("@") else os.path.join(REPO, f)
            if not os.path.exists(path):
                return f, None, "translation unit vanished: " + f
            cpath = os.path.join(cdir, key + "-" + f.replace("/", "_") + ".json") if cdir else None
            if cpath and os.path.exists(cpath):
                return f, json.load(open(cpath)), ""
            out = os.path.join(tmp, "%d.json" % ix)
            root = REPO.rstrip("/") + "/"
            r = subprocess.run([tool, root, out, path, "--"] + fl, capture_output=True, text=True)
            if not os.path.exists(out):
                return f, None, r.stderr[-2000:]
            d = json.load(open(out))
            os.unlink(out)
            if d["errors"] or r.returncode:
                return f, None, r.stderr[-3000:]
            if cpath:
                with open(cpath + ".%d" % os.getpid(), "w") as fh:
                    json.dump(d, fh)
                os.replace(cpath + ".%d" % os.getpid(), cpath)
            return f, d, ""

        prog = Program()
        jobs = int(os.environ.get("KNPA_JOBS", str(os.cpu_count() or 4)))
        with cf.ThreadPoolExecutor(jobs) as ex:
            for f, d, err in ex.map(run, list(enumerate(files))):
                if d is None:
                    raise AnalysisBroken("front end failed on %s\n%s" % (f, err))
                prog.add(f, d)
        prog.gen = None
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
