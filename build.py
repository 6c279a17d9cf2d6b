"""Builds the model checker from /repo's current working tree.

Objects are cached in /verif/build under the hash of everything that goes into
them, so that nothing stale is ever used.
"""
import concurrent.futures
import glob
import hashlib
import os
import re
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DYSCO_REPO", "/repo")
BUILD = os.path.join(HERE, "build")

VARIANTS = {
    "plain": ["-O1", "-g"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
    # plain, with the scenarios of C22
    "container": ["-O1", "-g"],
}
# mc.cc and the scheduling-independent parts are never instrumented
UNINSTRUMENTED = {
    "mc.cc": ["-O2", "-g", "-fno-access-control",
              "-fno-tree-loop-distribute-patterns"],
    "reference.cc": ["-O2", "-g"],
    "io.cc": ["-O2", "-g"],
}
# The codec scenarios look for optional functions of the repository
EXTRA = {"scenarios_codec.cc": ["-fconcepts"],
         "scenarios_container.cc": ["-O2"]}
# Instantiates the whole container, which may prevent it from being compiled
ONLY = {"scenarios_container.cc": "container"}
WRAP = """pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_cond_clockwait pthread_cond_timedwait
_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE
_ZNSt18condition_variable10notify_allEv _ZNSt18condition_variable10notify_oneEv
_ZNSt6thread4joinEv
_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE
sysconf _ZNSt6thread20hardware_concurrencyEv sched_yield nanosleep
clock_nanosleep usleep _ZNSt13random_device9_M_getvalEv _ZNSi4readEPcl
_ZNSi5seekgElSt12_Ios_Seekdir _ZNSo5seekpElSt12_Ios_Seekdir _ZNSo5writeEPKcl
_ZNSo5flushEv""".split()

INCLUDE = ["-I/usr/include/casacore", "-I" + REPO, "-I" + HERE + "/src"]


def digest(*items):
    h = hashlib.sha256()
    for i in items:
        h.update(i if isinstance(i, bytes) else str(i).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def repo_sources():
    """The sources of the storage manager, as CMakeLists.txt lists them"""
    text = open(REPO + "/CMakeLists.txt").read()
    m = re.search(r"add_library\(\s*dyscostman-object\s+OBJECT(.*?)\)", text, re.S)
    names = re.findall(r"([\w/.-]+\.cc)", m.group(1)) if m else []
    if not names:
        names = [os.path.basename(f) for f in glob.glob(REPO + "/*.cc")
                 if os.path.basename(f) not in
                 ("dscompress.cc", "decompress.cc", "stopwatch.cc")]
    return [os.path.join(REPO, n) for n in names]


def tool_sources():
    """dscompress and decompress, of which main() is renamed"""
    text = open(REPO + "/CMakeLists.txt").read()
    out, seen = [], set()
    for tool in ("dscompress", "decompress"):
        m = re.search(r"add_executable\(\s*%s\b(.*?)\)" % tool, text, re.S)
        names = re.findall(r"([\w/.-]+\.cc)", m.group(1)) if m else [tool + ".cc"]
        for n in names:
            if n in seen:
                continue
            seen.add(n)
            out.append((os.path.join(REPO, n), tool + "_main" if n == tool + ".cc" else None))
    return out


class BuildError(Exception):
    pass


_lock = threading.Lock()


def build(variant, verbose=False):
    """Returns the path of the model checker binary"""
    flags = VARIANTS[variant]
    os.makedirs(BUILD + "/obj", exist_ok=True)
    repo_headers = sorted(glob.glob(REPO + "/**/*.h", recursive=True))
    repo_headers = [h for h in repo_headers if "/_build/" not in h]
    repo_hash = digest(*[x for h in repo_headers for x in (h, read(h))])
    own_headers = sorted(glob.glob(HERE + "/src/*.h"))
    own_hash = digest(*[x for h in own_headers for x in (h, read(h))])
    jobs = []
    for s in repo_sources():
        jobs.append((s, ["-DNDEBUG"] + flags, repo_hash, None))
    for s, new_main in tool_sources():
        jobs.append((s, ["-DNDEBUG"] + flags, repo_hash, new_main))
    for s in sorted(glob.glob(HERE + "/src/*.cc")):
        name = os.path.basename(s)
        if ONLY.get(name, variant) != variant:
            continue
        f = UNINSTRUMENTED.get(name, flags) + EXTRA.get(name, [])
        if name == "io.cc" and variant in ("plain", "container"):
            f = f + ["-DIO_ACTIVE"]
        jobs.append((s, f, repo_hash + own_hash, None))

    def compile_one(job):
        source, fl, dep, new_main = job
        cmd = ["g++", "-std=c++17"] + INCLUDE + fl + ["-c", source]
        key = digest(" ".join(cmd), read(source), dep, new_main)
        obj = os.path.join(BUILD, "obj", key + ".o")
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (source, r.stderr[-4000:]))
        if new_main:
            # Not with a macro: main() returns 0 without a return statement
            subprocess.run(["objcopy", "--redefine-sym", "main=" + new_main, tmp], check=True)
        os.rename(tmp, obj)
        return obj

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(compile_one, jobs))
    binary = os.path.join(BUILD, "mcheck-%s-%s" % (variant, digest(variant, WRAP, *objs)))
    if not os.path.exists(binary):
        tmp = binary + ".%d.tmp" % os.getpid()
        cmd = (["g++"] + flags + objs + ["-Wl,--wrap=" + w for w in WRAP] +
               ["-o", tmp, "-lcasa_ms", "-lcasa_measures", "-lcasa_tables", "-lcasa_casa",
                "-lgsl", "-lgslcblas", "-lpthread"])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("linking failed:\n" + r.stderr[-4000:])
        os.rename(tmp, binary)
    else:
        os.utime(binary)
    clean()
    return binary


def clean():
    """Keep the cache small"""
    for pattern, keep in (("/obj/*.o", 240), ("/mcheck-*", 9)):
        files = sorted(glob.glob(BUILD + pattern), key=os.path.getmtime)
        for f in files[:-keep]:
            os.unlink(f)


def build_all(variants):
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        return dict(zip(variants, ex.map(build, variants)))


if __name__ == "__main__":
    names = sys.argv[1:] or ["plain", "container", "asan", "tsan"]
    try:
        for v, b in build_all(names).items():
            print(v, b)
    except BuildError as e:
        print(e)
        sys.exit(2)
