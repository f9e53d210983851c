"""Builds monitor binaries from /repo's current working tree.

Objects are cached by content: the key of an object is a hash of the compiler
flags, its source and every header it could include, so a stale object can
never be used whatever happens to time stamps.
"""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MINIMC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")

COMMON = ["-std=gnu++17", "-DMINIMC_MONITOR", "-w",
          f'-DREPO_DIR="{REPO}"',
          "-I/usr/include/hdf5/serial", f"-I{HARN}/lib", f"-I{REPO}/src"]
LIBS = ["-lpugixml", "-lxerces-c",
        "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so",
        "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so",
        "-lquadmath", "-lpthread", "-ldl"]
FLAVORS = {
    # assertions of the code under test stay enabled everywhere
    "plain": ["-O2"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero",
             "-fno-sanitize=float-divide-by-zero",
             "-fno-sanitize-recover=undefined,float-cast-overflow",
             "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
CXX = "g++"


class BuildError(Exception):
    pass


def sh(b):
    return hashlib.sha256(b).hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".hpp", ".h")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def compile_one(src, flags, hh):
    key = sh((" ".join(flags) + hh + src).encode() + read(src))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = f"{obj}.{os.getpid()}.tmp"
    r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(f"{src}:\n" + r.stdout.decode(errors="replace")[-4000:])
    os.replace(tmp, obj)
    return obj


def repo_sources(main=False):
    d = os.path.join(REPO, "src")
    return [os.path.join(d, f) for f in sorted(os.listdir(d))
            if f.endswith(".cpp") and (main or f != "minimc.cpp")]


def build(check, flavor):
    """Returns the path of the binary of harness/checks/<check>.cpp."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    prune()
    flags = COMMON + FLAVORS[flavor]
    hr = headers_hash([os.path.join(REPO, "src")])
    hl = headers_hash([os.path.join(HARN, "lib")])
    jobs = []
    if check == "minimc":
        # the program itself, hooks off
        pflags = [f for f in flags if f != "-DMINIMC_MONITOR"]
        jobs = [(s, pflags, hr) for s in repo_sources(True)]
    else:
        jobs = [(s, flags, hr) for s in repo_sources()]
        for f in ("common.cpp", "model.cpp", "refxs.cpp", "drive.cpp",
                  "walk.cpp", "tally.cpp", "reflaws.cpp",
                  "restyle.cpp"):
            p = os.path.join(HARN, "lib", f)
            if os.path.exists(p):
                jobs.append((p, flags, hr + hl if f in ("drive.cpp", "walk.cpp", "tally.cpp")
                             else hl))
        jobs.append((os.path.join(HARN, "checks", check + ".cpp"), flags, hr + hl))
    # slowest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    key = sh(("".join(sorted(objs)) + flavor).encode())
    exe = os.path.join(BUILD, "bin", f"{check}_{flavor}_{key}")
    if not os.path.exists(exe):
        link = [f for f in FLAVORS[flavor] if f.startswith("-fsanitize")]
        tmp = f"{exe}.{os.getpid()}.tmp"
        r = subprocess.run([CXX, *link, "-o", tmp, *objs, *LIBS],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors="replace")[-4000:])
        os.replace(tmp, exe)
    else:
        os.utime(exe)
    return exe


def prune(limit=3 << 30):
    """Keeps the cache small: drops the least recently used files."""
    files = []
    for d in ("obj", "bin"):
        p = os.path.join(BUILD, d)
        for f in os.listdir(p):
            q = os.path.join(p, f)
            try:
                st = os.stat(q)
            except OSError:
                continue
            files.append((st.st_mtime, st.st_size, q))
    total = sum(f[1] for f in files)
    for m, s, q in sorted(files):
        if total < limit:
            break
        if time.time() - m < 3600:
            continue
        try:
            os.remove(q)
            total -= s
        except OSError:
            pass


if __name__ == "__main__":
    try:
        for a in sys.argv[1:]:
            c, f = a.split(":")
            print(build(c, f))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
