"""Running the library on scripts and validating the recorded traces with TLC."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
EVIDENCE = os.path.join(BUILD if "VP_BUILD" in os.environ else VERIF, "evidence")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ---------------------------------------------------------------- builds

def build_classes():
    out = os.path.join(BUILD, "classes")
    names = ("Sha", "Fast")
    src = [os.path.join(SPEC, n + ".java") for n in names]
    obj = [os.path.join(out, n + ".class") for n in names]
    if all(os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(s) for o, s in zip(obj, src)):
        return out
    os.makedirs(out, exist_ok=True)
    r = sh(["javac", "-cp", JAR, "-d", out] + src)
    if r.returncode:
        raise CheckError("javac failed:\n" + r.stdout)
    return out


def lib_sources():
    """The library sources as sources.mk lists them."""
    text = open(os.path.join(REPO, "sources.mk")).read()
    files = re.findall(r"^UTREEXO_LIB_SOURCES_INT\s*\+?=\s*(.*)$", text, re.M)
    srcs = [w.replace("%reldir%/", "") for l in files for w in l.split() if w.endswith(".cpp")]
    if not srcs:
        raise CheckError("no library sources in sources.mk")
    return srcs


def tree_hash():
    h = hashlib.sha256()
    for top in ("include", "src"):
        for d, dirs, files in sorted(os.walk(os.path.join(REPO, top))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".cpp", ".hpp", ".c")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "sources.mk"), "rb").read())
    return h.hexdigest()[:16]


FLAGS = {"asan": ["-O1", "-g", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
         "plain": ["-O2", "-g"]}


# Drivers that use internal interfaces, and what switches these uses off.
INTERNAL = {"geo": "-DNO_STATE", "hash": "-DNO_SHA"}


def build_driver(name="driver", flavour="asan"):
    if name not in INTERNAL:
        return compile_driver(name, flavour)
    try:
        return compile_driver(name, flavour)
    except CheckError:
        compile_driver("driver", flavour)
        print("note: harness/%s.cpp does not fit the library's internal headers, only the public interface is checked" % name)
        return compile_driver(name, flavour, (INTERNAL[name],))


def compile_driver(name="driver", flavour="asan", extra=()):
    """Compile harness/<name>.cpp with the library sources of /repo's working tree (cached by content)."""
    src = os.path.join(VERIF, "harness", name + ".cpp")
    key = tree_hash() + hashlib.sha256(open(src, "rb").read() + open(os.path.join(VERIF, "harness", "common.h"), "rb").read() +
                                       repr((FLAGS[flavour], extra)).encode()).hexdigest()[:8]
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s-%s" % (name, flavour, key))
    if os.path.exists(out):
        return out
    for f in os.listdir(d):                      # keep only the current tree's binaries
        if f.startswith("%s-%s-" % (name, flavour)):
            try:
                os.unlink(os.path.join(d, f))
            except OSError:
                pass
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        base = ["g++", "-std=c++17", "-w", "-I" + os.path.join(VERIF, "harness"), "-I" + REPO, "-I" + os.path.join(REPO, "src")] + FLAGS[flavour] + list(extra)
        objs, jobs = [], []
        for i, s in enumerate([src] + [os.path.join(REPO, s) for s in lib_sources()]):
            o = os.path.join(tmp, "%d.o" % i)
            objs.append(o)
            jobs.append(base + ["-c", s, "-o", o])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(sh, jobs):
                if r.returncode:
                    raise CheckError("compilation failed:\n" + r.stdout[-4000:])
        r = sh(base + objs + ["-o", out + ".tmp"])
        if r.returncode:
            raise CheckError("linking failed:\n" + r.stdout[-4000:])
        os.rename(out + ".tmp", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


# ---------------------------------------------------------------- running scripts

def run_script(binary, script, scratch, timeout=90):
    """Run one script (list of lines). Returns the list of events (a crash is an event too)."""
    d = tempfile.mkdtemp(dir=scratch)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:hard_rss_limit_mb=3000", LC_ALL="C")
    try:
        p = subprocess.run([binary, d], input="\n".join(script) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout, env=env)
        out, rc, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        rc, err = -14, "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if rc == 3:
        raise CheckError("bad script: " + err[-500:])
    events, pending = [], None
    for line in out.split("\n"):
        try:
            if line.startswith("B "):
                pending = json.loads(line[2:])
            elif line.startswith("E ") and pending is not None:
                pending.update(json.loads(line[2:]))
                events.append(pending)
                pending = None
        except ValueError:
            break
    if rc != 0:
        if pending is None:
            if err == "timeout" or rc in (-9,):
                raise CheckError("driver ended without a call in progress: rc=%s %s" % (rc, err[-300:]))
            pending = {"op": "exit"}
        pending["of"] = pending.pop("op")
        pending["op"] = "crash"
        m = re.search(r"(AddressSanitizer: [^\n]*|Assertion [^\n]*|what\(\): [^\n]*|runtime error: [^\n]*)", err)
        pending["why"] = (m.group(1) if m else err if err == "timeout" else "signal %d" % -rc)[:200]
        events.append(pending)
    elif pending is not None:
        raise CheckError("incomplete log")
    return events


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, scratch, env=None, timeout=800, workers=1, mem="3g", args=(), gc="-XX:+UseSerialGC"):
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", gc, "-Xmx" + mem, "-Xss64m", "-cp", build_classes() + ":" + JAR, "-DTLA-Library=" + SPEC,
           "-Djava.io.tmpdir=" + scratch, "tlc2.TLC", "-nowarning", "-metadir", meta, "-workers", str(workers), "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, cwd=SPEC)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on " + os.path.basename(module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


RE_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
RE_MISMATCH = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*"([^"]*)",\s*\{([^}]*)\},\s*\{([^}]*)\}\s*>>', re.S)


def tlc_counts(out):
    m = None
    for m in RE_STATES.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def validate(events, scratch, timeout=800, module="Trace"):
    """Validate one trace. Returns (mismatches, transitions)."""
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=scratch)
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    rc, out = tlc(os.path.join(SPEC, module + ".tla"), os.path.join(SPEC, module + ".cfg"), scratch,
                  env={"TRACE": path}, timeout=timeout)
    os.unlink(path)
    if rc != 0 or "No error has been found" not in out:
        keep = os.path.join(BUILD, "failed-trace.ndjson")
        with open(keep, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        raise CheckError("TLC failed (rc=%s) on a trace, kept in %s:\n%s" % (rc, keep, out[-3000:]))
    mm = []
    for m in RE_MISMATCH.finditer(out):
        mm.append({"line": int(m.group(1)), "op": m.group(2),
                   "kinds": sorted(re.findall(r'"([^"]+)"', m.group(3))),
                   "props": sorted(re.findall(r'"([^"]+)"', m.group(4)))})
    if out.count('"MISMATCH"') != len(mm):
        raise CheckError("unparsed mismatch:\n" + out[-3000:])
    return mm, tlc_counts(out)[0]


def model_check(mod, scratch, deadline):
    """Check a model of the specification alone. mod: dict(name, module, cfg, checked, [args, workers, mem])"""
    t = time.time()
    text = open(os.path.join(SPEC, mod.get("cfg", mod["module"]) + ".cfg")).read()
    for k, v in mod.get("constants", {}).items():
        text, n = re.subn(r"\b%s = \S+" % k, "%s = %s" % (k, v), text)
        if n != 1:
            raise CheckError("constant %s is not in the configuration of %s" % (k, mod["name"]))
    fd, cfg = tempfile.mkstemp(suffix=".cfg", dir=scratch)
    with os.fdopen(fd, "w") as f:
        f.write(text)
    rc, out = tlc(os.path.join(SPEC, mod["module"] + ".tla"), cfg, scratch,
                  timeout=max(10, deadline - t), workers=mod.get("workers", 1), mem=mod.get("mem", "4g"), args=mod.get("args", ()))
    st, di = tlc_counts(out)
    ok = rc == 0 and ("No error has been found" in out or mod.get("simulate"))
    if mod.get("constants"):
        mod = dict(mod, checked="%s (%s)" % (mod["checked"], ", ".join("%s = %s" % x for x in mod["constants"].items())))
    return {"name": mod["name"], "ok": ok, "states": st, "distinct": di, "wall_s": round(time.time() - t, 1),
            "checked": mod.get("checked", ""), "out": "" if ok else out[-3000:]}
