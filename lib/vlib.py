"""Build + run + judge machinery shared by every check.

A check = a list of jobs.  A job = one harness executable (built from
/verif/harness/*.cc and the *current* /repo sources under one sanitizer
flavour) run with some arguments.  The harness prints

    VIOL <key> | <detail>          a monitor refuted the property
    SAMPLE <text>                  an actual case, for the evidence file
    COUNT <name> <integer>         measured counters
    DONE                           the workload ran to its end

and writes the 64-bit signatures of the distinct, non-trivial cases it executed
to --hashes.  Everything else that can end a run (assertion, sanitizer report,
signal, hang) is turned into a violation key here as well.
"""
import os, sys, re, json, time, hashlib, subprocess, fcntl, shutil, struct, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
NPROC = min(8, os.cpu_count() or 4)

LIB_DIRS = ["string", "log", "mem", "process", "thread", "util", "algo",
            "buffer", "linux", "net"]
# only what is undefined in the language *and* never done on purpose here
UBSAN = ("bounds,signed-integer-overflow,shift,bool,enum,return,unreachable,"
         "vla-bound,integer-divide-by-zero,float-cast-overflow,null")
COMMON = ["-I" + REPO, "-pthread", "-fno-omit-frame-pointer", "-w"]
FLAVORS = {
    "asan": ["-O1", "-g1", "-fsanitize=address," + UBSAN,
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O1", "-g1"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:handle_abort=0:strict_string_checks=1:quarantine_size_mb=64",
    "LSAN_OPTIONS": "exitcode=98:print_suppressions=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=96:second_deadlock_stack=1:"
                    "history_size=4:report_signal_unsafe=0:detect_deadlocks=1",
}


class HarnessError(Exception):
    """Something of ours failed (build, internal error): neither pass nor violation."""


# ---------------------------------------------------------------- building
def lib_sources():
    src = []
    for d in LIB_DIRS:
        for root, dirs, files in os.walk(os.path.join(REPO, "kanon", d)):
            dirs[:] = sorted(x for x in dirs if x not in ("win", "test", "tests"))
            for f in sorted(files):
                if f.endswith((".cc", ".cpp", ".c")):
                    src.append(os.path.join(root, f))
    x = os.path.join(REPO, "third-party/xxHash/xxhash.c")
    if os.path.exists(x):
        src.append(x)
    return src


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for base in ("kanon", "third-party/xxHash", "example"):
            for root, dirs, files in os.walk(os.path.join(REPO, base)):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(root, f)
                    if os.path.isfile(p) and not f.endswith((".o", ".a", ".so")):
                        h.update(p.encode())
                        with open(p, "rb") as fp:
                            h.update(fp.read())
        _tree_hash = h.hexdigest()
    return _tree_hash


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", **kw)
    return r.returncode, r.stdout


def _cc(src, obj, flags):
    if src.endswith(".c"):
        cmd = ["gcc"] + COMMON + flags + ["-c", src, "-o", obj]
    else:
        cmd = ["g++"] + COMMON + flags + ["-c", src, "-o", obj]
    rc, out = sh(cmd)
    if rc != 0:
        raise HarnessError("compile failed: %s\n%s" % (" ".join(cmd), out[-4000:]))


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _prune(prefix, keep):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)
          if d.startswith(prefix) and os.path.isdir(os.path.join(BUILD, d))]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-keep]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


def build_lib(flavor, std="gnu++11"):
    """libkanon from the current tree, all non-Windows core sources."""
    flags = FLAVORS[flavor]
    key = hashlib.sha256((tree_hash() + repr(flags) + repr(COMMON) + std).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "lib-%s-%s" % (flavor, key))
    lib = os.path.join(d, "libkanon.a")
    with _Lock("lib-" + flavor):
        if os.path.exists(lib):
            os.utime(d)
            return lib
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _prune("lib-" + flavor, 3)
        srcs = lib_sources()
        jobs = []
        for s in srcs:
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "__") + ".o")
            fl = list(flags) + ([] if s.endswith(".c") else ["-std=" + std])
            jobs.append((s, o, fl))
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda j: _cc(*j), jobs))
        rc, out = sh(["ar", "rcs", lib + ".tmp"] + [j[1] for j in jobs])
        if rc != 0:
            raise HarnessError("ar failed: " + out)
        for j in jobs:
            os.unlink(j[1])
        os.rename(lib + ".tmp", lib)
    return lib


def build_exe(flavor, src, extra=(), wraps=(), std="gnu++14", ldlibs=(), incs=(), defs=()):
    """Link one harness (harness/<src>) against the current library."""
    lib = build_lib(flavor)
    srcs = [os.path.join(VERIF, "harness", src)] + [
        e if os.path.isabs(e) else os.path.join(VERIF, "harness", e) for e in extra]
    h = hashlib.sha256((lib + repr((srcs, sorted(wraps), std, ldlibs, incs, defs))).encode())
    for root in (os.path.join(VERIF, "harness"),):
        for f in sorted(os.listdir(root)):
            if f.endswith(".h"):
                h.update(open(os.path.join(root, f), "rb").read())
    for s in srcs:
        h.update(open(s, "rb").read())
    d = os.path.join(BUILD, "exe-%s-%s-%s" % (os.path.splitext(src)[0], flavor, h.hexdigest()[:16]))
    exe = os.path.join(d, "run")
    with _Lock("exe-%s-%s" % (os.path.splitext(src)[0], flavor)):
        if os.path.exists(exe):
            os.utime(d)
            return exe
        _prune("exe-%s-%s" % (os.path.splitext(src)[0], flavor), 2)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        flags = list(FLAVORS[flavor]) + ["-std=" + std] + ["-I" + i for i in incs] + ["-D" + x for x in defs]
        flags.append("-I" + os.path.join(VERIF, "harness"))
        jobs = [(s, os.path.join(d, "%d_%s.o" % (i, os.path.basename(s))),
                 flags if not s.endswith(".c") else [f for f in flags if not f.startswith("-std=")])
                for i, s in enumerate(srcs)]
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda j: _cc(*j), jobs))
        cmd = (["g++"] + list(FLAVORS[flavor]) + ["-pthread", "-rdynamic", "-o", exe + ".tmp"]
               + [j[1] for j in jobs] + [lib] + ["-Wl,--wrap=" + w for w in wraps] + list(ldlibs) + ["-ldl"])
        rc, out = sh(cmd)
        if rc != 0:
            raise HarnessError("link failed: %s\n%s" % (" ".join(cmd), out[-4000:]))
        for j in jobs:
            os.unlink(j[1])
        os.rename(exe + ".tmp", exe)
    return exe


def build_protos():
    """Generate the C++ of /repo's rpc.proto and the test messages; returns the directory."""
    protos = [(REPO, "kanon/rpc/rpc.proto"), (os.path.join(VERIF, "harness"), "msg.proto")]
    h = hashlib.sha256()
    for root, p in protos:
        h.update(open(os.path.join(root, p), "rb").read())
    d = os.path.join(BUILD, "pb-" + h.hexdigest()[:16])
    with _Lock("pb"):
        if not os.path.exists(os.path.join(d, "done")):
            _prune("pb", 2)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for root, p in protos:
                rc, out = sh(["protoc", "-I", root, "--cpp_out=" + d, os.path.join(root, p)])
                if rc != 0:
                    raise HarnessError("protoc failed: %s\n%s" % (p, out[-4000:]))
            open(os.path.join(d, "done"), "w").close()
    return d


def build_pb_exe(flavor, src, wraps=()):
    """Link a harness of the protobuf codec and the remote calls."""
    d = build_protos()
    extra = [os.path.join(REPO, "kanon", s) for s in (
        "protobuf/generic_pb_codec.cc", "protobuf/logger.cc", "protobuf/chunk_stream.cc", "rpc/rpc_channel.cc", "rpc/rpc_codec.cc",
        "rpc/rpc_controller.cc", "rpc/rpc_server.cc", "rpc/logger.cc")] + [os.path.join(d, s) for s in ("msg.pb.cc", "kanon/rpc/rpc.pb.cc")]
    return build_exe(flavor, src, extra=extra, wraps=wraps, ldlibs=("-lprotobuf",), incs=(d,))


# ---------------------------------------------------------------- judging
FRAME = re.compile(r"#\d+\s+(?:0x[0-9a-f]+\s+)?(?:in\s+)?(.+?)\s+(/\S+?):(\d+)")


def _fn(s):
    s = re.sub(r"\(.*$", "", s)
    s = re.sub(r"<.*>", "<>", s)
    return s.strip().split()[-1] if s.strip() else "?"


def repo_frames(block, n=1):
    out = []
    for m in FRAME.finditer(block):
        if "/kanon/" in m.group(2) and "/verif/" not in m.group(2):
            f = "%s" % _fn(m.group(1))
            if f not in out:
                out.append(f)
            if len(out) == n:
                break
    return out


def parse_reports(err):
    """Sanitizer/assertion reports in stderr -> list of (key, detail)."""
    res = []
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]+)[\s\S]*?(?=\n={10,}|\Z)", err):
        blk = m.group(0)
        kind = m.group(1).strip().replace(" ", "-")
        stacks = re.split(r"\n\s*\n", blk)
        tops = []
        for s in stacks[:2]:
            f = repo_frames(s, 1)
            if f:
                tops.append(f[0])
        res.append(("tsan:%s:%s" % (kind, "~".join(sorted(set(tops))) or "?"), blk[:3500]))
    for m in re.finditer(r"ERROR: AddressSanitizer:? ([\w\-]+)[\s\S]*?(?=\n=================================================================\n|\Z)", err):
        blk = m.group(0)
        f = repo_frames(blk, 1)
        res.append(("asan:%s:%s" % (m.group(1), f[0] if f else "?"), blk[:3500]))
    m = re.search(r"ERROR: LeakSanitizer: detected memory leaks[\s\S]*", err)
    if m:
        blk = m.group(0)
        seen = set()
        for leak in re.split(r"\n\n", blk):
            if "leak of" not in leak or not leak.strip().startswith(("Direct", "\nDirect")):
                continue
            f = repo_frames(leak, 1)
            k = "leak:%s" % (f[0] if f else "?")
            if k not in seen:
                seen.add(k)
                res.append((k, leak[:2500]))
        if not seen:
            res.append(("leak:?", blk[:2500]))
    for m in re.finditer(r"([^\n]*runtime error: [^\n]*)([\s\S]{0,2500})", err):
        f = repo_frames(m.group(2), 1)
        what = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1).split("runtime error: ")[1])[:60]
        res.append(("ubsan:%s:%s" % (what.replace(" ", "-"), f[0] if f else "?"), m.group(0)[:2500]))
    for m in re.finditer(r"[^\n]*: ([^\n]*?)Assertion `([^\n]*)' failed", err):
        res.append(("assert:%s" % (re.sub(r"\s+", " ", m.group(2))[:80]), m.group(0)))
    m = re.search(r"terminate called[^\n]*(?:\n\s+what\(\):[^\n]*)?", err)
    if m:
        res.append(("terminate:%s" % re.sub(r"\s+", " ", m.group(0))[:80], m.group(0)))
    m = re.search(r"pure virtual method called", err)
    if m:
        res.append(("pure-virtual", m.group(0)))
    return res


class Job:
    def __init__(self, name, exe, args=(), timeout=150, env=None, min_eval=1, probe=None,
                 flavor="asan", single=False):
        self.name, self.exe, self.args = name, exe, list(map(str, args))
        self.timeout, self.env, self.min_eval = timeout, env or {}, min_eval
        self.flavor, self.single = flavor, single


def run_job(job, workdir, idx, attempt=0):
    tag = "%s-%d-%d" % (re.sub(r"\W+", "_", job.name), idx, attempt)
    hp = os.path.join(workdir, tag + ".hashes")
    pp = os.path.join(workdir, tag + ".case")
    op, ep = os.path.join(workdir, tag + ".out"), os.path.join(workdir, tag + ".err")
    scratch = os.path.join(workdir, tag + ".d")
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(job.env)
    cmd = [job.exe] + job.args + ["--hashes", hp, "--progress", pp]
    t0 = time.time()
    timed_out = False
    with open(op, "wb") as fo, open(ep, "wb") as fe:
        pr = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, cwd=scratch,
                              env=env, start_new_session=True)
        try:
            rc = pr.wait(job.timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.killpg(pr.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            rc = pr.wait()
    try:
        os.killpg(pr.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    out = open(op, "rb").read(8 << 20).decode("utf-8", "replace")
    err = open(ep, "rb").read(8 << 20).decode("utf-8", "replace")
    case = None
    try:
        b = open(pp, "rb").read(8)
        if len(b) == 8:
            case = struct.unpack("<q", b)[0]
    except OSError:
        pass
    r = dict(job=job, cmd=cmd, rc=rc, out=out, err=err, case=case, viol=[], counts={}, samples=[],
             hashes=set(), wall=time.time() - t0, timed_out=timed_out, done=False)
    for line in out.splitlines():
        if line.startswith("VIOL "):
            k, _, d = line[5:].partition(" | ")
            r["viol"].append((k.strip(), d))
        elif line.startswith("COUNT "):
            _, k, v = line.split(" ", 2)
            r["counts"][k] = r["counts"].get(k, 0) + int(v)
        elif line.startswith("SAMPLE "):
            r["samples"].append(line[7:])
        elif line == "DONE":
            r["done"] = True
        elif line.startswith("HARNESS-ERROR"):
            r["harness_error"] = line
    try:
        b = open(hp, "rb").read()
        r["hashes"] = set(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    except OSError:
        pass
    reps = parse_reports(err)
    r["viol"] += reps
    if timed_out:
        r["viol"].append(("hang:process:%s" % job.name, "no end within %d s; case %s" % (job.timeout, case)))
    elif not r["viol"] and (rc != 0 or not r["done"]) and "harness_error" not in r:
        if rc < 0 or rc >= 90:
            r["viol"].append(("crash:%s:rc%d" % (job.name, rc), (out[-500:] + err[-1500:])))
        else:
            r["harness_error"] = "job %s ended rc=%d without DONE\n%s\n%s" % (job.name, rc, out[-800:], err[-1500:])
    shutil.rmtree(scratch, ignore_errors=True)
    return r


def load_known(prop):
    """known_findings: lines 'known: property=<id> key=<regex> <what fails>' /
    'fixed: property=<id> <commit> <what failed>'.  Fixed lines suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3).strip(), m.group(2)))
    return res


def run_check(prop, level, rule, jobs, tier, seed, assumptions=(), min_distinct=2, min_counts=None):
    t0 = time.time()
    work = os.path.join(OUT, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        results = []
        # jobs marked single run alone afterwards (timing-sensitive)
        par = [(i, j) for i, j in enumerate(jobs) if not j.single]
        ser = [(i, j) for i, j in enumerate(jobs) if j.single]
        with ThreadPoolExecutor(NPROC) as ex:
            results += list(ex.map(lambda ij: run_job(ij[1], work, ij[0]), par))
        for i, j in ser:
            results.append(run_job(j, work, i))
        # a whole-process timeout is inconclusive until it happens again
        retried = []
        for k, r in enumerate(results):
            if r["timed_out"] and len(r["viol"]) == 1 and len(retried) < 2:
                retried.append(r["job"].name)
                results[k] = run_job(r["job"], work, 1000 + k, attempt=1)
        known = load_known(prop)
        viols, known_hit = [], {}
        for r in results:
            for key, detail in r["viol"]:
                for rx, what, raw in known:
                    if rx.fullmatch(key):
                        known_hit.setdefault(what, 0)
                        known_hit[what] += 1
                        break
                else:
                    viols.append((key, detail, r))
        evaluations = sum(r["counts"].get("cases", 0) for r in results)
        hashes = set()
        for r in results:
            hashes |= r["hashes"]
        counts = {}
        for r in results:
            for k, v in r["counts"].items():
                counts[k] = (max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v)
        samples = []
        for r in results:
            samples += r["samples"][:2]
        ev = dict(property=prop, tier=tier, seed=seed, level=level,
                  coverage=dict(evaluations=evaluations, distinct_nontrivial=len(hashes), rule=rule,
                                samples=samples[:12] or ["(none)"], observed=counts,
                                jobs=[dict(name=r["job"].name, flavor=r["job"].flavor, wall_s=round(r["wall"], 2),
                                           cases=r["counts"].get("cases", 0)) for r in results],
                                retried_timeouts=retried,
                                known_findings=sorted(known_hit)),
                  assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(viols))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what in sorted(known_hit):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        if viols:
            seen = set()
            for key, detail, r in viols:
                if key in seen:
                    continue
                seen.add(key)
                h = hashlib.sha256(key.encode()).hexdigest()[:10]
                rp = os.path.join(OUT, "%s-%s.json" % (prop, h))
                with open(rp, "w") as f:
                    json.dump(dict(property=prop, key=key, detail=detail, job=r["job"].name, cmd=r["cmd"],
                                   case=r["case"], seed=seed, tier=tier, env=SAN_ENV,
                                   stderr=r["err"][-20000:], stdout=r["out"][-5000:]), f, indent=1)
                if len(seen) <= 8:
                    print("  %s: %s" % (key, detail.strip().splitlines()[0][:300] if detail.strip() else ""))
                    print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        errs = [r["harness_error"] for r in results if "harness_error" in r]
        if errs:
            print("HARNESS-ERROR", errs[0])
            return 2
        if any(r["timed_out"] for r in results):
            print("HARNESS-ERROR unresolved timeout")
            return 2
        for r in results:
            if r["counts"].get("cases", 0) < r["job"].min_eval:
                print("HARNESS-ERROR job %s observed too little (%s cases)" % (r["job"].name, r["counts"].get("cases", 0)))
                return 2
        if len(hashes) < min_distinct:
            print("HARNESS-ERROR only %d distinct cases" % len(hashes))
            return 2
        for k, v in (min_counts or {}).items():
            if counts.get(k, 0) < v:
                print("HARNESS-ERROR monitor saw %s=%d < %d" % (k, counts.get(k, 0), v))
                return 2
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" %
              (prop, tier, seed, evaluations, len(hashes), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
