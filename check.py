#!/usr/bin/env python3
"""Decide one property of exact-real by deterministic simulation.

    check.py PROPERTY [--tier quick|thorough] [--seed N] [--seconds S]
    check.py --replay FILE        execute a replay file, show the event log
    check.py --determinism [N]    run N seeds of every property in different ways, compare
    check.py --setup              check that everything needed is installed

Builds the library from /repo's working tree together with the simulator,
explores seeds, reports a violation as a minimised replay file.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIBS = ["-leantic", "-leanticxx", "-lflint", "-lgmpxx", "-lgmp"]
THREADED = {"C14", "C10"}                       # properties with a share of thread simulations
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
START = time.time()


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------- building
def tree(paths):
    out = []
    for p in paths:
        if os.path.isfile(p):
            out.append(p)
        for d, _, fs in os.walk(p):
            out += [os.path.join(d, f) for f in fs if f.endswith((".cc", ".hpp", ".h", ".ipp", ".in", ".cpp"))]
    return sorted(out)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in tree(paths):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as s:
            h.update(s.read())
    return h.hexdigest()[:16]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build(kind):
    """kind: sim (single threaded simulator) or thr (thread simulator); returns the executable."""
    lib = os.path.join(REPO, "libexactreal")
    flags = {"sim": ["-O1", "-g0"], "thr": ["-O1", "-g0"]}[kind]
    key = digest([lib + "/src", lib + "/exact-real", VERIF + "/sim", VERIF + "/shims"], kind + " ".join(flags))
    out = os.path.join(BUILD, kind + "-" + key)
    exe = os.path.join(out, "exactsim")
    if os.path.exists(exe):
        return exe
    if os.path.isdir(BUILD):
        # keep the disk small: only the most recent few builds stay
        old = sorted(glob.glob(os.path.join(BUILD, kind + "-*")), key=os.path.getmtime)
        for d in old[:-2]:
            if time.time() - os.path.getmtime(d) > 1800:   # (not what another check is using)
                shutil.rmtree(d, ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    gen = os.path.join(tmp, "gen", "exact-real")
    os.makedirs(gen)
    with open(os.path.join(lib, "exact-real", "local.hpp.in")) as s, open(os.path.join(gen, "local.hpp"), "w") as d:
        d.write(s.read().replace("@libdir@", "/usr/local/lib"))
    common = ["g++", "-std=c++17", "-D_GLIBCXX_ASSERTIONS", "-no-pie", "-fno-pie", "-I" + os.path.join(VERIF, "shims"),
              "-I" + os.path.join(tmp, "gen"), "-I" + gen, "-I" + lib, "-w"] + flags
    sources = sorted(glob.glob(lib + "/src/**/*.cc", recursive=True))
    jobs = []
    simdir = os.path.join(VERIF, "sim")
    if kind == "sim":
        own = [os.path.join(simdir, f) for f in sorted(os.listdir(simdir)) if f.endswith(".cc") and not f.startswith("thr")]
        for f in own:
            jobs.append((f, common))
        for f in sources:
            jobs.append((f, common + ["-DBUILD_LIBEXACTREAL"]))
    else:
        # Everything but the simulator's core is instrumented; the library's objects come first so that
        # inline functions are taken from there.
        plain = ["core.cc", "truth.cc", "gen.cc", "main.cc", "thr_sched.cc"]
        tsan = common + ["-DVERIF_THREADS", "-fsanitize=thread", "--param=tsan-distinguish-volatile=1"]
        for f in sources:
            jobs.append((f, tsan + ["-DBUILD_LIBEXACTREAL"]))
        for f in sorted(os.listdir(simdir)):
            if f.endswith(".cc"):
                jobs.append((os.path.join(simdir, f), common + ["-DVERIF_THREADS"] if f in plain else tsan))
    # big ones first
    order = [j[0] for j in jobs]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    objs = {}

    def compile_one(job):
        src, cmd = job
        obj = os.path.join(tmp, hashlib.sha256(src.encode()).hexdigest()[:12] + ".o")
        rc, text = run(cmd + ["-c", src, "-o", obj])
        return rc, src, text, obj

    with ThreadPoolExecutor(WORKERS) as pool:
        for rc, src, text, obj in pool.map(compile_one, jobs):
            if rc:
                raise HarnessError("cannot compile %s:\n%s" % (src, text[:4000]))
            objs[src] = obj
    objs = [objs[src] for src in order]
    link = []
    if kind == "thr":
        link = wrap_calls(tmp, objs, [o for s, o in zip(order, objs) if s in sources])
    rc, text = run(["g++", "-no-pie"] + objs + link + LIBS + ["-lpthread", "-ldl", "-o", os.path.join(tmp, "exactsim")])
    if rc:
        raise HarnessError("cannot link:\n" + text[:4000])
    for o in objs:
        os.unlink(o)
    if os.path.isdir(out):
        shutil.rmtree(tmp)
    else:
        os.rename(tmp, out)
    return exe


def wrap_calls(tmp, objs, library):
    """Make every call of FLINT and GMP from the library's objects a scheduling point, see sim/thr_calls.txt."""
    roles = {}
    for line in open(os.path.join(VERIF, "sim", "thr_calls.txt")):
        w = line.split("#")[0].split()
        if w:
            roles[w[0]] = "".join((x + "-")[:2] for x in w[1:])
    rc, text = run(["nm", "-u"] + library)
    if rc:
        raise HarnessError("cannot read symbols:\n" + text[:1000])
    names = set(w[1] for w in (l.split() for l in text.split("\n")) if len(w) == 2)
    names = sorted(n for n in names if re.match(r"_?(arf|arb|mag|fmp[zqr]|arith|flint_rand|nf|renf|fexpr|acb|n)_|__gmp[zqnf]?_", n) and n not in ("flint_free",))
    asm = [".section .note.GNU-stack,\"\",@progbits", ".text"]
    for n in names:
        asm.append("""
.globl __wrap_%s
__wrap_%s:
  push %%rbp
  mov %%rsp, %%rbp
  push %%rax
  push %%r9
  push %%r8
  push %%rcx
  push %%rdx
  push %%rsi
  push %%rdi
  sub $72, %%rsp
  movups %%xmm0, (%%rsp)
  movups %%xmm1, 16(%%rsp)
  movups %%xmm2, 32(%%rsp)
  movups %%xmm3, 48(%%rsp)
  lea 72(%%rsp), %%rsi
  mov $.Lroles_%s, %%edi
  mov 8(%%rbp), %%rdx
  call verif_external_call
  movups (%%rsp), %%xmm0
  movups 16(%%rsp), %%xmm1
  movups 32(%%rsp), %%xmm2
  movups 48(%%rsp), %%xmm3
  add $72, %%rsp
  pop %%rdi
  pop %%rsi
  pop %%rdx
  pop %%rcx
  pop %%r8
  pop %%r9
  pop %%rax
  pop %%rbp
  jmp __real_%s
.section .rodata
.Lroles_%s: .asciz "%s"
.text""" % (n, n, n, n, n, roles.get(n, "")))
    src, obj, opts = (os.path.join(tmp, "wrap" + x) for x in (".s", ".o", ".opts"))
    with open(src, "w") as f:
        f.write("\n".join(asm) + "\n")
    rc, text = run(["gcc", "-c", src, "-o", obj])
    if rc:
        raise HarnessError("cannot assemble:\n" + text[:2000])
    with open(opts, "w") as f:
        f.write("\n".join("-Wl,--wrap=" + n for n in names) + "\n")
    return [obj, "@" + opts]


# ------------------------------------------------------------------ execution
ENV = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C"}


def execute(exe, plan, scratch, timeout=120):
    """Run a plan in a fresh process: (status, property, oracle, detail, hash)"""
    path = os.path.join(scratch, "plan-%d-%d.txt" % (os.getpid(), execute.n))
    execute.n += 1
    with open(path, "w") as f:
        f.write(plan)
    try:
        p = subprocess.run([exe, "exec", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=ENV, errors="replace")
    finally:
        os.unlink(path)
    r = {}
    for line in p.stdout.split("\n"):
        k, _, v = line.partition(" ")
        if k:
            r.setdefault(k, v)
    if p.returncode not in (0, 1) or "status" not in r:
        raise HarnessError("simulator failed (%s): %s" % (p.returncode, p.stderr[-1000:]))
    return r


execute.n = 0


def failing(r):
    return r["status"] == "2"


def klass(r):
    return (r.get("property"), r.get("oracle", "").split(" ")[0])


def minimise(exe, plan, target, scratch, budget):
    """ddmin over operations, then remove faults, crashes, configuration; keep the same property and oracle."""
    end = time.time() + budget
    lines = plan.strip().split("\n")
    head = [l for l in lines if not l.startswith(("op ", "run ", "#"))]
    body = [l for l in lines if l.startswith(("op ", "run "))]
    tried = 0

    def bad(h, b):
        nonlocal tried
        tried += 1
        try:
            r = execute(exe, "\n".join(h + b) + "\n", scratch)
        except HarnessError:
            return False
        return failing(r) and klass(r) == target

    n = 2
    while len(body) >= 2 and time.time() < end:
        size = max(1, len(body) // n)
        chunks = [body[i:i + size] for i in range(0, len(body), size)]
        reduced = False
        # try several candidates at the same time, take the first in order
        cands = [sum(chunks[:i] + chunks[i + 1:], []) for i in range(len(chunks))]
        for at in range(0, len(cands), WORKERS):
            if time.time() > end:
                break
            part = cands[at:at + WORKERS]
            with ThreadPoolExecutor(WORKERS) as pool:
                res = list(pool.map(lambda b: bad(head, b), part))
            if any(res):
                body = part[res.index(True)]
                reduced = True
                break
        if reduced:
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(body), n * 2)
    # simplify what is left
    for i in range(len(body)):
        if time.time() > end:
            break
        if "!alloc" in body[i]:
            c = body[:i] + [re.sub(r" !alloc=\d+", "", body[i])] + body[i + 1:]
            if bad(head, c):
                body = c
    for h in list(head):
        if time.time() > end:
            break
        if h.startswith("cfg "):
            c = [x for x in head if x != h]
            if bad(c, body):
                head = c
    for i in range(len(body)):
        words = body[i].split(" ")
        for j in range(2 if words[0] == "op" else 1, len(words)):
            if time.time() > end or words[j].startswith("!"):
                break
            try:
                v = int(words[j])
            except ValueError:
                continue
            for smaller in (0, 1, v // 2, v // 16, v - 1 if v > 0 else v + 1):
                if abs(smaller) >= abs(v):
                    continue
                w = words[:j] + [str(smaller)] + words[j + 1:]
                c = body[:i] + [" ".join(w)] + body[i + 1:]
                if bad(head, c):
                    words, body = w, c
                    break
    return "\n".join(head + body) + "\n", tried


def explore(exe, prop, tier, seed, seconds, scratch, label):
    """Run a batch on all workers; returns (merged statistics, list of violating plans)"""
    base = seed * 100000000
    procs = []
    for i in range(WORKERS):
        out = os.path.join(scratch, "%s-%d" % (label, i))
        procs.append((out, subprocess.Popen([exe, "batch", prop, tier, str(base + i), str(WORKERS), str(seconds), out],
                                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=ENV, errors="replace")))
    stats = {"counters": {}, "faultruns": {}}
    violations, mismatches, samples = [], [], []
    hashes, nontrivial = set(), set()
    bitmap = None
    errors = []
    for out, p in procs:
        try:
            _, err = p.communicate(timeout=seconds + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            errors.append("worker did not finish")
            continue
        if p.returncode not in (0, 1):
            errors.append("worker failed (%s): %s" % (p.returncode, err[-1000:]))
            continue
        for line in open(out + ".stats"):
            w = line.split()
            if w[0] == "counter":
                stats["counters"][w[1]] = stats["counters"].get(w[1], 0) + int(w[2])
            elif w[0] == "faultruns":
                stats["faultruns"][w[1]] = stats["faultruns"].get(w[1], 0) + int(w[2])
            elif w[0] != "seconds":
                stats[w[0]] = stats.get(w[0], 0) + int(w[1])
        for line in open(out + ".hashes"):
            _, h, good = line.split()
            hashes.add(h)
            if good == "1":
                nontrivial.add(h)
        b = open(out + ".bitmap", "rb").read()
        bitmap = b if bitmap is None else bytes(x | y for x, y in zip(bitmap, b))
        samples += [s for s in open(out + ".samples").read().split("\n\n") if s.strip()]
        if os.path.exists(out + ".violation"):
            violations.append(open(out + ".violation").read())
        if os.path.exists(out + ".mismatch"):
            mismatches.append(open(out + ".mismatch").read())
    stats["distinct"] = len(hashes)
    stats["distinct_nontrivial"] = len(nontrivial)
    stats["transitions"] = sum(bin(x).count("1") for x in (bitmap or b""))
    stats["samples"] = samples
    return stats, violations, mismatches, errors


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) oracle=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


REAL = ["libexactreal (all of libexactreal/src and exact-real headers, compiled from /repo's working tree)", "FLINT/Arb", "GMP", "e-antic", "boost", "cereal", "libstdc++"]
STUB = ["unique-factory (stand-in; eviction policy under simulator control)", "spimpl, hash-combine, gmpxxll (stand-ins for empty submodules)",
        "operator new/delete and the GMP/FLINT allocators (simulated heap)", "streambufs (simulated disk and terminal)", "processes (one forked child per simulated life)"]


def check(prop, tier, seed, seconds):
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        return check_in(prop, tier, seed, seconds, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_in(prop, tier, seed, seconds, scratch):
    parts = []
    if prop != "C14":
        parts.append(("sim", seconds if prop not in THREADED else seconds * 0.6))
    if prop in THREADED:
        parts.append(("thr", seconds if prop == "C14" else seconds * 0.4))
    merged = None
    found = []
    errors = []
    wall = 0
    built = {kind: build(kind) for kind, _ in parts}
    log("%s: built after %.1f s" % (prop, time.time() - START))
    for kind, secs in parts:
        t = time.time()
        stats, violations, mismatches, errs = explore(built[kind], prop, tier, seed, secs, scratch, kind)
        wall += time.time() - t
        errors += errs
        if mismatches:
            errors.append("executions are not deterministic, plan:\n" + mismatches[0])
        found += [(kind, v) for v in violations]
        stats["by"] = {kind: stats.get("runs", 0)}
        if merged is None:
            merged = stats
        else:
            for k, v in stats.items():
                if isinstance(v, int):
                    merged[k] = merged.get(k, 0) + v
                elif isinstance(v, dict):
                    for a, b in v.items():
                        merged[k][a] = merged[k].get(a, 0) + b
                else:
                    merged[k] = merged[k] + v
    status = 0
    findings = known_findings(prop)
    listed = set()
    reported = 0
    for kind, text in found:
        exe = built[kind]
        plan = "\n".join(l for l in text.split("\n") if not l.startswith("#")).strip() + "\n"
        # Gate: two fresh processes must agree.
        a, b = execute(exe, plan, scratch), execute(exe, plan, scratch)
        if not failing(a) or klass(a) != klass(b) or a["hash"] != b["hash"]:
            errors.append("a violation did not replay:\n" + text)
            continue
        hit = [f for f in findings if f[0] == a["oracle"].split(" ")[0] and f[1].search(a["detail"])]
        if hit:
            listed.add(hit[0][2])
            continue
        if reported:
            continue
        small, tried = minimise(exe, plan, klass(a), scratch, 25 if tier == "quick" else 120)
        r = execute(exe, small, scratch)
        if not failing(r):
            small, r = plan, a
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.plan" % (prop, hashlib.sha256(small.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write("# simulator %s\n%s# property %s\n# oracle %s\n# detail %s\n# hash %s\n" % (kind, small, r["property"], r["oracle"], r["detail"], r["hash"]))
        log("%s: %s: %s" % (prop, r["oracle"], r["detail"]))
        log("%s: minimised from %d to %d operations in %d executions" % (prop, plan.count("\nop "), small.count("\nop "), tried))
        log("VIOLATION property=%s replay=%s" % (prop, path))
        reported += 1
        status = 1
    for f in sorted(listed):
        log("KNOWN-FINDING: property=%s %s" % (prop, f))
    faults = {k: v for k, v in sorted(merged["counters"].items()) if k.startswith(("fault.", "disk."))}
    probes = {k: v for k, v in sorted(merged["counters"].items()) if not k.startswith(("fault.", "disk.", "other."))}
    others = {k: v for k, v in sorted(merged["counters"].items()) if k.startswith("other.")}
    runs = merged.get("runs", 0)
    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": merged["distinct_nontrivial"],
        "rule": "one evaluation is one simulated run (a plan made from one seed, executed completely); distinct: its event log (operations, outcomes, simulated time, live blocks) hashes differently; non-trivial: at least five operations were executed and at least one oracle beyond the per-operation audit was reached",
        "samples": merged["samples"][:3],
        "seeds": "%d + worker + %d k" % (seed * 100000000, WORKERS),
        "runs_per_hour": int(runs / wall * 3600) if wall else 0,
        "simulated_lives": merged.get("lives", 0),
        "simulated_ticks": merged.get("ticks", 0),
        "operations": merged.get("ops", 0),
        "events": merged.get("events", 0),
        "distinct_histories": merged["distinct"],
        "distinct_transitions": merged["transitions"],
        "transition_measure": "pairs of consecutive (operation, registry hit/creation/release/eviction, fault, error) signatures, hashed into 65536 bits" if "sim" in built else "context switches (from, to, code location), hashed into 65536 bits",
        "faults_fired": faults,
        "runs_with_fault": merged["faultruns"],
        "probes": probes,
        "addresses_reused": merged.get("reused", 0),
        "registry": {k: merged.get("registry-" + k, 0) for k in ("hits", "creates", "evictions")},
        "runs_repeated_for_determinism": merged.get("resamples", 0),
        "determinism_mismatches": merged.get("mismatches", 0),
        "stopped_by_violation_of_other_property": others,
        "runs_by_simulator": merged["by"],
        "real_code": REAL,
        "stubs": STUB + (["the thread scheduler (real threads, one runs at a time; every access to shared memory, call of FLINT/GMP, lock and atomic is a possible switch)", "pthread mutexes, rwlocks, conditions, once; guards of function local statics (under simulator control)"] if "thr" in built else []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                   "assumptions": ["sampled, not exhaustive", "the reference model in sim/truth.cc (FLINT, GMP) is correct"],
                   "wall_s": round(time.time() - START, 1), "violations": reported}, f, indent=1)
    if errors and status == 0:
        for e in errors:
            log("ERROR: " + e)
        return 2
    log("%s: %d runs, %d distinct histories, %d faults fired, %.1f s" % (prop, runs, merged["distinct"], sum(faults.values()), time.time() - START))
    return status


def replay(path):
    text = open(path).read()
    m = re.search(r"# simulator (\w+)", text)
    exe = build(m.group(1) if m else "sim")
    p = subprocess.run([exe, "exec", path, "-v"], env=ENV)
    return p.returncode


def determinism(n):
    bad = 0
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "MANIFEST.json").replace("MANIFEST.json", "properties.jsonl"))]
    for prop in props:
        if prop == "C20":
            continue
        for kind in (["thr"] if prop == "C14" else ["sim", "thr"] if prop in THREADED else ["sim"]):
            exe = build(kind)

            def hashes(jobs):
                per = (n + jobs - 1) // jobs
                ps = [subprocess.Popen([exe, "hashes", prop, "quick", str(i * per), str(per)], stdout=subprocess.PIPE, text=True, env=ENV) for i in range(jobs)]
                out = {}
                for p in ps:
                    for line in p.communicate()[0].split("\n"):
                        w = line.split()
                        if len(w) == 3 and int(w[0]) < n:
                            out[int(w[0])] = w[1:]
                return out
            a, b, c = hashes(1), hashes(8), hashes(20)
            diff = [s for s in range(n) if not (a.get(s) == b.get(s) == c.get(s))]
            log("%s %s: %d seeds, %d differ" % (prop, kind, len(a), len(diff)), diff[:5])
            bad += len(diff)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--determinism", nargs="?", const=200, type=int)
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            rc, text = run(["g++", "--version"])
            os.makedirs(BUILD, exist_ok=True)
            return rc
        if a.replay:
            return replay(a.replay)
        if a.determinism:
            return determinism(a.determinism)
        seconds = a.seconds or (45 if a.tier == "quick" else 600)
        return check(a.property, a.tier, a.seed, seconds)
    except HarnessError as e:
        log("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
