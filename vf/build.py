"""Builds /repo and the harness drivers, from /repo's current working tree: the libROM-free part as
the repository's own build here does, or (full=True) every source against harness/standin, which
stands in for libROM and MUMPS.

Everything goes to /verif/build (git-ignored).  Objects are cached by a hash of the
compiler command and of the contents of all headers, so a build is always that of the
current tree.  The libROM parts of linalg_utils are blanked by the rule that
/opt/vp/harness/prepare.py uses (the same rule, restated here so that checks need nothing
outside /verif and /repo).
"""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
GEN = os.path.join(BUILD, "gen")
STANDIN = os.path.join(VERIF, "harness", "standin")
TRIMMED = ("include/linalg_utils.hpp", "src/linalg_utils.cpp")
LIBROM = re.compile(r"(librom\.h|linalg/\w+\.h|utils/\w+\.h|mfem/Utilities\.hpp|algo/.*\.h)$")
INCLUDE = re.compile(r'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)

CXX = "/usr/bin/g++"
L = "/usr/lib/x86_64-linux-gnu"
CXXFLAGS = ["-I" + GEN + "/include", "-I/usr/include/mfem", "-I/usr/include/hypre",
            "-I/usr/include/hdf5/serial", "-isystem", L + "/openmpi/include",
            "-isystem", L + "/openmpi/include/openmpi", "-I" + VERIF + "/harness",
            "-O1", "-w", "-std=gnu++14"]
LDFLAGS = ["-Wl,-rpath,%s/hdf5/serial:%s/openmpi/lib" % (L, L), L + "/hdf5/serial/libhdf5.so",
           "-lz", "-ldl", "-lm", "-llapack", "-lblas", "-lmfem", "-lHYPRE", "-lmetis", "-lyaml-cpp",
           L + "/openmpi/lib/libmpi_cxx.so", L + "/openmpi/lib/libmpi.so", "-lpthread"]


class BuildError(Exception):
    pass


def read(path):
    with open(path, errors="surrogateescape") as f:
        return f.read()


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    if os.path.exists(path) and read(path) == text:
        return
    with open(path, "w", errors="surrogateescape") as f:
        f.write(text)


def trim(rel):
    lines = read(os.path.join(REPO, rel)).split("\n")
    out = list(lines)

    def blank(a, b):
        out[a:b + 1] = [""] * (b + 1 - a)

    i, n = 0, len(lines)
    start = None
    while i < n:
        line = lines[i]
        m = INCLUDE.match(line)
        if m and LIBROM.match(m.group(1)):
            out[i] = ""
        elif re.match(r"namespace CAROM\b", line):
            j = i + 1
            while j < n:
                if lines[j].rstrip() == "}":
                    k = j + 1
                    while k < n and not lines[k].strip():
                        k += 1
                    if k == n or re.match(r"(namespace|using|#endif)\b", lines[k]):
                        break
                j += 1
            if j == n:
                raise BuildError("no end of namespace CAROM in " + rel)
            blank(i, j)
            i, start = j, None
        elif re.match(r"namespace\b|#", line) or (line.startswith("{") and start is None):
            start = None
        elif re.match(r"[A-Za-z]", line) and start is None:
            start = i
            if line.rstrip().endswith(";"):
                start = None
        elif start is not None and line.startswith("}"):
            if any("CAROM::" in x for x in lines[start:i + 1]):
                blank(start, i)
            start = None
        elif start is not None and not any(
                x.startswith("{") for x in lines[start:i]
        ) and line.rstrip().endswith(";") and not any("{" in x for x in lines[start:i]):
            start = None
        i += 1
    return '#line 1 "%s/%s"\n' % (REPO, rel) + "\n".join(out)


def needs_librom(rel, seen):
    if rel in seen or rel in TRIMMED:
        return False
    seen.add(rel)
    for inc in INCLUDE.findall(read(os.path.join(REPO, rel))):
        for base in (os.path.dirname(rel), "include"):
            cand = os.path.normpath(os.path.join(base, inc))
            if os.path.isfile(os.path.join(REPO, cand)):
                if needs_librom(cand, seen):
                    return True
                break
        else:
            if LIBROM.match(inc):
                return True
    return False


def prepare():
    """Header farm + trimmed files; returns the list of library sources (absolute paths)."""
    inc = GEN + "/include"
    os.makedirs(inc, exist_ok=True)
    headers = set(os.listdir(REPO + "/include"))
    for old in set(os.listdir(inc)) - headers:
        os.remove(os.path.join(inc, old))
    for h in headers:
        rel, path = "include/" + h, os.path.join(inc, h)
        if rel in TRIMMED:
            continue
        target = os.path.join(REPO, rel)
        if os.path.islink(path) and os.readlink(path) == target:
            continue
        if os.path.lexists(path):
            os.remove(path)
        os.symlink(target, path)
    for rel in TRIMMED:
        write(os.path.join(GEN, rel), trim(rel))
    text = re.sub(r"#.*", "", read(REPO + "/CMakeLists.txt"))
    body = re.search(r"set\(\s*scaleupROMObj_SOURCES(.*?)\)", text, re.S).group(1)
    lib = []
    for rel in re.findall(r"\S+\.cpp", body):
        if not needs_librom(rel, set()):
            lib.append(os.path.join(GEN if rel in TRIMMED else REPO, rel))
    return lib


def _headers_hash(full=False):
    h = hashlib.sha256()
    dirs = (REPO + "/include", VERIF + "/harness", STANDIN) if full else (GEN + "/include", VERIF + "/harness")
    for d in dirs:
        for f in sorted(os.listdir(d)):
            if f.endswith((".hpp", ".h")):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), "rb").read())
    return h


def all_sources():
    text = re.sub(r"#.*", "", read(REPO + "/CMakeLists.txt"))
    body = re.search(r"set\(\s*scaleupROMObj_SOURCES(.*?)\)", text, re.S).group(1)
    return [os.path.join(REPO, rel) for rel in re.findall(r"\S+\.cpp", body)]


def _compile(src, flags, hh):
    h = hh.copy()
    h.update(" ".join(flags).encode())
    h.update(src.encode())
    h.update(open(src, "rb").read())
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + h.hexdigest()[:20] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        p = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, p.stdout[-4000:]))
        os.replace(tmp, obj)
    return obj


def build(driver, extra_flags=(), extra_src=(), full=False):
    """Compile the library and harness/<driver>.cpp; return the path of the executable."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    lib = all_sources() if full else prepare()
    flags = (["-I" + STANDIN, "-I" + REPO + "/include"] if full else []) + CXXFLAGS + list(extra_flags)
    hh = _headers_hash(full)
    srcs = lib + [os.path.join(VERIF, "harness", driver + ".cpp")] + list(extra_src)
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: _compile(s, flags, hh), srcs))
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, "bin", "%s.%s" % (driver, key))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        san = [f for f in extra_flags if f.startswith("-fsanitize")]
        p = subprocess.run([CXX] + san + ["-o", tmp] + objs + LDFLAGS, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("linking %s failed:\n%s" % (driver, p.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


def util(name):
    """Compile /repo/utils/<name>.cpp with the library; return the path of the executable."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    lib = prepare()
    hh = _headers_hash()
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: _compile(s, CXXFLAGS, hh), lib + [os.path.join(REPO, "utils", name + ".cpp")]))
    exe = os.path.join(BUILD, "bin", "u_%s.%s" % (name, hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20]))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        p = subprocess.run([CXX, "-o", tmp] + objs + LDFLAGS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("linking %s failed:\n%s" % (name, p.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    for d in sys.argv[1:]:
        print(build(d))
