"""Builds the C++ extension from /repo's working tree, outside /repo, and makes Python import that build.

A stale BF*.so may lie in /repo/src/tfc/utils; the finder below takes precedence over it, so that the code that is
monitored is always the code in the working tree.
"""

import fcntl, hashlib, importlib.abc, importlib.machinery, importlib.util, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VF_REPO", "/repo")
UTILS = os.path.join(REPO, "src", "tfc", "utils")

VARIANTS = {
    "release": ("Release", ""),
    "asan": ("None", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fsanitize=float-cast-overflow"
                     " -fno-sanitize=vptr -D_GLIBCXX_ASSERTIONS"),
    "tsan": ("None", "-O1 -g -fno-omit-frame-pointer -fsanitize=thread"),
}


class BuildError(Exception):
    pass


def _cache_root():
    d = os.path.join(tempfile.gettempdir(), "vf_build.%d" % os.getuid())
    os.makedirs(d, exist_ok=True)
    return d


def _digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(UTILS):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "build"))
        for f in sorted(files):
            if f.endswith((".cc", ".cpp", ".cxx", ".c", ".h", ".hpp", ".hh", ".txt", ".cmake")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, UTILS).encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(UTILS.encode())
    return h.hexdigest()[:20]


def build(variant="release"):
    """Returns the path of the extension module built from the working tree."""
    btype, flags = VARIANTS[variant]
    root = _cache_root()
    out = os.path.join(root, "%s-%s" % (variant, _digest()))
    with open(os.path.join(root, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        done = os.path.join(out, "done")
        if os.path.exists(done):
            return open(done).read()
        # Keep at most one build per variant
        for d in os.listdir(root):
            if d.startswith(variant + "-"):
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
        os.makedirs(out)
        import pybind11

        env = {k: v for k, v in os.environ.items()
               if k not in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CC", "CXX", "LD_PRELOAD", "CMAKE_GENERATOR")}
        args = ["cmake", "-S", UTILS, "-B", out, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=" + btype,
                "-Dpybind11_DIR=" + os.path.join(os.path.dirname(pybind11.__file__), "share", "cmake", "pybind11"),
                "-DPython_EXECUTABLE=" + sys.executable, "-DCMAKE_CXX_COMPILER=g++"]
        if flags:
            args.append("-DCMAKE_CXX_FLAGS=" + flags)
        for cmd in (args, ["cmake", "--build", out]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode:
                raise BuildError(r.stdout[-4000:])
        so = None
        for r_, _, files in os.walk(out):
            for f in files:
                if f.startswith("BF.") and f.endswith(".so"):
                    so = os.path.join(r_, f)
        if so is None:
            raise BuildError("no BF module was built")
        with open(done, "w") as f:
            f.write(so)
        return so


def runtime(*libs):
    """The sanitizer runtimes to preload."""
    out = []
    for lib in libs:
        p = subprocess.run(["gcc", "-print-file-name=%s.so" % lib], stdout=subprocess.PIPE, text=True).stdout.strip()
        if not os.path.isabs(p):
            raise BuildError("no %s" % lib)
        out.append(os.path.realpath(p))
    return " ".join(out)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == "tfc.utils.BF":
            loader = importlib.machinery.ExtensionFileLoader(name, self.so)
            return importlib.util.spec_from_file_location(name, self.so, loader=loader)
        return None


def install(so):
    """Import tfc from /repo/src with this build of the extension."""
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    sys.meta_path.insert(0, _Finder(so))
