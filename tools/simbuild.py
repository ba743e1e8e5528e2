"""Builds scenario binaries: /repo's current sources + scenario + simrt. Objects are reused only if every
file the compiler read under /repo and /verif (and the command) is byte-identical."""
import os, sys, json, hashlib, subprocess, concurrent.futures, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "g++-13"
BASE = ["-std=gnu++20", "-O1", "-g1", "-fsanitize=thread", "-fno-pie", "-fno-omit-frame-pointer", "-w", "-Wno-changes-meaning", "-mavx", "-DNDEBUG",
        "-DNEOLIB_HOSTED_ENVIRONMENT", "-DBOOST_THREAD_DYN_LINK", "-DBOOST_CHRONO_DYN_LINK", "-DBOOST_FILESYSTEM_DYN_LINK",
        "-include", f"{VERIF}/simrt/shim/shim.hpp", f"-I{REPO}/include", f"-I{VERIF}/simrt/gen"]
RT = ["-std=c++20", "-O2", "-g1", "-w", "-fno-pie"]
LIBS = ["-Wl,--as-needed", "-lboost_locale", "-lboost_filesystem", "-lboost_chrono", "-lboost_thread", "-lssl", "-lcrypto", "-lz", "-lpthread", "-ldl"]

_hash = {}
def fhash(p):
    try:
        st = os.stat(p); k = (p, st.st_mtime_ns, st.st_size)
        if k not in _hash: _hash[k] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        return _hash[k]
    except OSError: return None

def compile_one(src, flags, tag):
    """-> object path (raises on error)"""
    rel = src.replace("/", "_").lstrip("_")
    key = hashlib.sha256((" ".join(flags) + "|" + CXX).encode()).hexdigest()[:12]
    obj = os.path.join(BUILD, "obj", f"{rel}.{key}.o"); meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(fhash(p) == h for p, h in m.items()): return obj, False
        except Exception: pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = f"{obj}.{os.getpid()}"
    cmd = [CXX] + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError(f"compile failed: {src}\n{r.stdout[-6000:]}")
    deps = re.sub(r"\\\n", " ", open(tmp + ".d").read()).split(":", 1)[1].split()
    m = {os.path.abspath(p): fhash(os.path.abspath(p)) for p in deps if os.path.abspath(p).startswith((REPO, VERIF))}
    os.replace(tmp + ".o", obj); os.unlink(tmp + ".d")
    json.dump(m, open(meta + f".{os.getpid()}", "w")); os.replace(meta + f".{os.getpid()}", meta)
    return obj, True

def build(unit, jobs=None):
    """unit: dict(name, src=[...], repo=[...], flags=[...]) -> binary path"""
    jobs = jobs or os.cpu_count() or 4
    work = []
    for s in unit["src"]: work.append((os.path.join(VERIF, "scenarios", s), BASE + unit.get("flags", [])))
    for s in unit.get("repo", []): work.append((os.path.join(REPO, s), BASE + unit.get("flags", [])))
    for s in ("simrt.cpp", "simio.cpp", "simnet.cpp"):
        if os.path.exists(os.path.join(VERIF, "simrt", s)): work.append((os.path.join(VERIF, "simrt", s), RT))
    work.append((os.path.join(VERIF, "simrt", "memops.cpp"), RT + ["-fno-builtin"]))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda w: compile_one(w[0], w[1], unit["name"]), work))
    objs = [r[0] for r in res]
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    out = os.path.join(BUILD, "bin", unit["name"])
    key = hashlib.sha256(" ".join(o + (fhash(o) or "") for o in objs).encode()).hexdigest()
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key: return out
    r = subprocess.run([CXX, "-no-pie", "-o", out + ".tmp"] + objs + unit.get("libs", LIBS), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        und = sorted(set(re.findall(r"undefined reference to .*", r.stdout)))
        raise RuntimeError("link failed: " + unit["name"] + "\n" + "\n".join(und[:40] or [r.stdout[-3000:]]))
    os.replace(out + ".tmp", out); open(kf, "w").write(key)
    return out

if __name__ == "__main__":
    from units import UNITS
    for n in (sys.argv[1:] or list(UNITS)):
        try: print(build(UNITS[n]), flush=True)
        except RuntimeError as e: print(str(e)[:6000], flush=True); sys.exit(1)
