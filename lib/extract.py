"""Runs the clang extractor over the library's translation units and merges the result."""
import os, sys, json, hashlib, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GWM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class AnalysisError(Exception):
    """the analysis could not be carried out (never a verdict)"""


def tool():
    src = os.path.join(VERIF, "tool", "gwmx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "gwmx-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh"), out], capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise AnalysisError("cannot build the extractor:\n" + r.stderr[-2000:])
    return out


def flags(repo, mpi=True, omp=True):
    f = ["-std=gnu++17", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w", "-I" + os.path.join(VERIF, "tool", "include")]
    if omp:
        f += ["-fopenmp", "-DENABLE_OPENMP"]
    if mpi:
        f += ["-DENABLE_MPI", "-I/usr/lib/x86_64-linux-gnu/openmpi/include"]
    f += ["-DARMA_DONT_USE_WRAPPER", "-DARMA_USE_BLAS", "-DARMA_USE_LAPACK", "-DDBL_MAX=__DBL_MAX__", "-DDOUBLE_EPS=1e-8",
          "-DM_PI=3.14159265358979323846", "-DM_PI_2=1.57079632679489661923", "-DNDEBUG"]
    for d in ("include", "include/gwmodelpp", "include/gwmodelpp/utils", "include/gwmodelcuda"):
        f.append("-I" + os.path.join(repo, d))
    return f


# sources that belong to the CUDA build only (nvcc is not available: not part of the analysed program)
CUDA_ONLY = {"src/gwmodelpp/utils/cumat.cpp", "src/gwmodelpp/utils/CudaUtils.cpp"}


def sources(repo):
    out = []
    for root, dirs, files in os.walk(os.path.join(repo, "src", "gwmodelpp")):
        for f in files:
            if f.endswith((".cpp", ".cc", ".cxx")):
                p = os.path.join(root, f)
                if os.path.relpath(p, repo) not in CUDA_ONLY:
                    out.append(p)
    return sorted(out)


def _run(t, outdir, roots, src, fl):
    o = os.path.join(outdir, hashlib.md5(src.encode()).hexdigest() + ".json")
    r = subprocess.run([t, o, ":".join(roots), src, "--"] + fl, capture_output=True, text=True)
    if r.returncode or not os.path.exists(o):
        return src, None, r.stderr[-3000:]
    with open(o) as fh:
        return src, json.load(fh), ""


def extract(repo=None, extra=(), only=None):
    """returns the merged program: dict(functions={key:fn}, classes, enums, globals, units=[...])"""
    repo = os.path.realpath(repo or REPO)
    t = tool()
    fl = flags(repo)
    srcs = sources(repo)
    if only is not None:
        srcs = [s for s in srcs if os.path.basename(s) in only]
    if not srcs and not extra:
        raise AnalysisError("no source found under %s" % repo)
    roots = [os.path.join(repo, "src"), os.path.join(repo, "include"), os.path.join(VERIF, "spec")]
    tmp = tempfile.mkdtemp(prefix="gwmx")
    prog = dict(functions={}, classes={}, enums={}, globals={}, units=[], broken_specs=[], repo=repo)
    try:
        jobs = [(s, fl) for s in srcs] + [(s, fl + ["-fno-access-control"]) for s in extra]
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            res = list(ex.map(lambda j: _run(t, tmp, roots, j[0], j[1]), jobs))
        res.sort(key=lambda r: r[0])
        uid = 0
        for src, d, err in res:
            if d is None:
                if src in extra:
                    # a private name a claim relies on is gone: the claims of this file cannot be stated any more
                    prog["broken_specs"].append((os.path.basename(src), err[-600:]))
                    continue
                raise AnalysisError("clang could not parse %s:\n%s" % (src, err))
            uid += 1
            prog["units"].append(src)
            for f in d["functions"]:
                f["unit"] = uid
                prev = prog["functions"].get(f["key"])
                if prev is None or ("body" in f and "body" not in prev):
                    prog["functions"][f["key"]] = f
            for c in d["classes"]:
                prog["classes"].setdefault(c["q"], c)
            for e in d["enums"]:
                prog["enums"].setdefault(e["q"], e)
            for g in d["globals"]:
                prog["globals"].setdefault(g["q"], g)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return prog


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        print(tool())
        sys.exit(0)
    p = extract(sys.argv[1] if len(sys.argv) > 1 else None)
    print(len(p["units"]), "units", len(p["functions"]), "functions", len(p["classes"]), "classes")
    json.dump(p, open("/tmp/prog.json", "w"))
