"""Builds the property harnesses against the current working tree of the repository.

Objects are cached in build/ by content (compiler flags and the bytes of the source and of every non-system header it
included), never by date: a changed tree is always seen, an unchanged one is never recompiled.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

INCLUDES = [
    VERIF + "/harness/stubs", VERIF + "/harness",
    REPO + "/src", REPO + "/src/coordinates", REPO + "/src/features", REPO + "/src/features/keypoints",
    REPO + "/src/features/lines", REPO + "/src/features/primitives", REPO + "/src/pose_optimization",
    REPO + "/src/map_management", REPO + "/src/map_management/map_features", REPO + "/third_party",
    REPO + "/src/tracking", REPO + "/src/outputs", REPO + "/src/utils", REPO + "/examples",
    "/usr/include/opencv4", "/usr/include/eigen3", "/usr/include/flann",
]
LIBS = ["-lopencv_core", "-lopencv_imgproc", "-lopencv_imgcodecs", "-lopencv_features2d", "-lopencv_video",
        "-lopencv_videoio", "-lopencv_highgui", "-lopencv_calib3d", "-lopencv_flann", "-lopencv_ximgproc", "-ltbb",
        "-llz4", "-lflann_cpp", "-lpthread"]
VARIANTS = {
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-sanitize=vptr,alignment"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}


class BuildError(Exception):
    pass


def file_hash(path, memo):
    if path not in memo:
        try:
            with open(path, "rb") as f:
                memo[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            memo[path] = "missing"
    return memo[path]


_lock = threading.Lock()
_memo = {}


def compile_one(src, variant, extra=()):
    flags = ["-std=c++20", "-w", "-pthread"] + VARIANTS[variant] + list(extra) + ["-I" + i for i in INCLUDES]
    base = hashlib.sha256(json.dumps([src, flags]).encode()).hexdigest()[:24]
    odir = os.path.join(BUILD, variant)
    os.makedirs(odir, exist_ok=True)
    index = os.path.join(odir, base + ".json")
    try:
        with open(index) as f:
            idx = json.load(f)
        if os.path.exists(idx["obj"]) and all(file_hash(d, _memo) == h for d, h in idx["deps"].items()):
            return idx["obj"]
    except (OSError, ValueError, KeyError):
        pass
    tag = "%s.%d" % (base, os.getpid())
    tmpo, tmpd = os.path.join(odir, tag + ".tmp.o"), os.path.join(odir, tag + ".tmp.d")
    r = subprocess.run(["g++"] + flags + ["-MD", "-MF", tmpd, "-c", src, "-o", tmpo], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    with open(tmpd) as f:
        words = f.read().replace("\\\n", " ").split()[1:]
    deps = {}
    for w in words:
        w = os.path.realpath(w)
        if not w.startswith("/usr/"):
            deps[w] = file_hash(w, _memo)
    os.unlink(tmpd)
    content = hashlib.sha256(json.dumps([base, sorted(deps.items())]).encode()).hexdigest()[:16]
    obj = os.path.join(odir, base + "." + content + ".o")
    os.replace(tmpo, obj)
    for old in glob.glob(os.path.join(odir, base + ".*.o")):
        if old != obj and ".tmp." not in old:
            try:
                os.unlink(old)
            except OSError:
                pass
    with open(index + ".%d" % os.getpid(), "w") as f:
        json.dump({"obj": obj, "deps": deps}, f)
    os.replace(index + ".%d" % os.getpid(), index)
    return obj


def all_sources():
    res = glob.glob(REPO + "/src/**/*.cpp", recursive=True) + glob.glob(REPO + "/third_party/**/*.cpp", recursive=True)
    return sorted(s for s in res if not s.endswith("_test.cpp") and "/tests/" not in s)


def wanted_sources(prop_src):
    """Globs of the '// needs:' lines of a harness, relative to the repository."""
    pats = []
    with open(prop_src) as f:
        for line in f:
            if line.startswith("// needs:"):
                pats += line[len("// needs:"):].split()
    every = all_sources()
    if not pats or "all" in pats:
        return every
    res = set()
    for p in pats:
        res |= set(glob.glob(os.path.join(REPO, p), recursive=True))
    return [s for s in every if s in res]


def compile_all(sources, variant, jobs, extra=None):
    extra = extra or {}
    # the longest first
    heavy = ["polygon.cpp", "plane_with_tracking", "primitive_detection", "inverse_depth_with_tracking",
             "polygon_coordinates", "point_with_tracking", "map_p", "pose_optimization", "rgbd_slam", "/props/"]

    def rank(s):
        for i, h in enumerate(heavy):
            if h in s:
                return i
        return len(heavy)

    order = sorted(sources, key=rank)
    out = {}
    errors = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(compile_one, s, variant, extra.get(s, ())): s for s in order}
        for f in concurrent.futures.as_completed(futs):
            try:
                out[futs[f]] = f.result()
            except BuildError as e:
                errors.append((futs[f], str(e)))
    return out, errors


def directive(prop_src, name):
    """Words of the '// name:' lines of a harness."""
    words = []
    with open(prop_src) as f:
        for line in f:
            if line.startswith("// %s:" % name):
                words += line[len("// %s:" % name):].split()
    return words


def instrumented(prop_src):
    """Extra flags of the sources in which the scheduler of a harness can preempt."""
    res = {}
    for p in directive(prop_src, "scheduled"):
        for s in glob.glob(os.path.join(REPO, p), recursive=True):
            res[s] = ("-I" + VERIF + "/harness/sched", "-finstrument-functions",
                      "-finstrument-functions-exclude-file-list=eigen3,third_party")
    return res


def link(objs, exe, variant, extra=()):
    flags = [f for f in VARIANTS[variant] if f.startswith("-fsanitize") or f == "-g1"] + list(extra)
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run(["g++", "-pthread"] + flags + objs + ["-o", tmp, "-Wl,--as-needed"] + LIBS, capture_output=True,
                       text=True)
    if r.returncode != 0:
        return r.stderr
    os.replace(tmp, exe)
    return None


def build(prop_id, variant="plain", jobs=8):
    """Returns the path of the harness executable of a property."""
    src = os.path.join(VERIF, "harness/props", prop_id + ".cpp")
    srcs = wanted_sources(src)
    wrap = directive(src, "link")
    out, errors = compile_all([src] + srcs, variant, jobs, instrumented(src))
    if errors:
        raise BuildError("\n".join(e for _, e in errors))
    exe = os.path.join(BUILD, variant, prop_id)
    key = hashlib.sha256("\n".join(sorted(out.values()) + wrap).encode()).hexdigest()
    keyfile = exe + ".key"
    try:
        with open(keyfile) as f:
            if f.read() == key and os.path.exists(exe):
                return exe
    except OSError:
        pass
    err = link([out[src]] + [out[s] for s in srcs], exe, variant, wrap)
    if err is not None:
        # a source moved, or a new dependency between sources: take everything that compiles
        more = [s for s in all_sources() if s not in out]
        out2, _ = compile_all(more, variant, jobs, instrumented(src))
        err = link([out[src]] + [out[s] for s in srcs] + list(out2.values()), exe, variant, wrap)
        if err is not None:
            raise BuildError("linking %s failed:\n%s" % (prop_id, err[-4000:]))
        key = ""
    with open(keyfile, "w") as f:
        f.write(key)
    return exe


if __name__ == "__main__":
    # setup: build everything once
    ids = sys.argv[1:] or sorted(
        os.path.basename(p)[:-4] for p in glob.glob(os.path.join(VERIF, "harness/props/*.cpp")))
    union = set()
    for i in ids:
        src = os.path.join(VERIF, "harness/props", i + ".cpp")
        union |= {src} | set(wanted_sources(src))
    compile_all(sorted(union), "plain", os.cpu_count() or 8)
    bad = 0
    for i in ids:
        try:
            build(i, jobs=os.cpu_count() or 8)
        except BuildError as e:
            print("cannot build", i, ":", e)
            bad += 1
    sys.exit(1 if bad else 0)
