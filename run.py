#!/usr/bin/env python3
"""Decides one property of /repo's working tree: builds the harnesses against it, runs them, judges, writes evidence.

  run.py C01 [--tier quick|thorough] [--seed N]     exit 0 held, 1 violated (VIOLATION line), 3 no answer
  run.py --replay FILE                              repeats the run of a replay file
  run.py --setup                                    builds everything once
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LF_REPO", "/repo")
BUILD = os.environ.get("LF_BUILD", os.path.join(V, "build"))
NCPU = os.cpu_count() or 4

# ------------------------------------------------------------------ targets
INC = ["-I" + REPO + "/include", "-I" + V + "/rt"]
MON = ["-U_FORTIFY_SOURCE", "-fno-builtin-memset", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-g0"]
GCC_MON = ["g++", "-std=gnu++17", "-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"] + MON
CLANG_MON = ["clang++", "-std=gnu++17", "-O1", "-mcx16", "-DDCAS", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
             "-mllvm", "-tsan-instrument-read-before-write=1"] + MON
MON_WRAP = "-Wl," + ",".join("--wrap=" + f for f in "memset memcpy memmove posix_memalign aligned_alloc malloc calloc free".split())
SEQ_WRAP = "-Wl," + ",".join("--wrap=" + f for f in "malloc free aligned_alloc posix_memalign".split())
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DNO_NEW"]

T = {}  # name -> (list of commands as functions of out dir)


def mon(name, src, defs, cc=GCC_MON):
    T[name] = dict(kind="mon", cmds=lambda o: [cc + INC + defs + ["-c", f"{V}/harness/{src}.cpp", "-o", o + ".o"],
                                              ["g++", o + ".o"] + [f"{os.path.dirname(o)}/{r}.o" for r in ("lfmon", "oracle", "h")] + ["-o", o, MON_WRAP, "-latomic"]])


def nat(name, src, flags, link=(), cc=("g++", "-std=gnu++17")):
    T[name] = dict(kind="nat", cmds=lambda o: [list(cc) + flags + INC + [f"{V}/harness/{src}.cpp", "-o", o] + list(link) + ["-latomic"]])


for c in (0, 1, 2, 4, 5):
    mon(f"q{c}", "conc_qs", [f"-DCFG={c}"])
    mon(f"s{c}", "conc_qs", [f"-DCFG={c}", "-DSTACK"])
mon("q8", "conc_qs", ["-DCFG=0"], CLANG_MON)
mon("q9", "conc_qs", ["-DCFG=4"], CLANG_MON)
mon("s8", "conc_qs", ["-DCFG=0", "-DSTACK"], CLANG_MON)
mon("s9", "conc_qs", ["-DCFG=4", "-DSTACK"], CLANG_MON)
for c in (0, 1, 2):
    mon(f"p{c}", "conc_spsc", [f"-DCFG={c}"])
    mon(f"t{c}", "conc_spsc", [f"-DCFG={c}", "-DTRIV"])
mon("p3", "conc_spsc", ["-DCFG=1", "-DCAP=33"])
for p in (0, 1, 2):
    for pre, fl in (("n", ["-O1"]), ("a", ["-O1"] + ASAN)):
        nat(f"{pre}Q{p}", "seq_qs", fl + [f"-DPART={p}"], [SEQ_WRAP])
        nat(f"{pre}S{p}", "seq_qs", fl + [f"-DPART={p}", "-DSTACK"], [SEQ_WRAP])
        nat(f"{pre}R{p}", "seq_spsc", fl + [f"-DPART={p}"], [SEQ_WRAP])
OTHER = ("clang++", "-std=gnu++20", "-DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC")  # the other compiler, language version and atomic library
nat("cQ0", "seq_qs", ["-O2", "-DPART=0"], [SEQ_WRAP], OTHER)
nat("cS0", "seq_qs", ["-O2", "-DPART=0", "-DSTACK"], [SEQ_WRAP], OTHER)
nat("cR0", "seq_spsc", ["-O2", "-DPART=0"], [SEQ_WRAP], OTHER)
nat("hQ", "seq_qs", ["-O1", "-DSHM"], [SEQ_WRAP])
nat("hS", "seq_qs", ["-O1", "-DSHM", "-DSTACK"], [SEQ_WRAP])
nat("hR", "seq_spsc", ["-O1", "-DSHM"], [SEQ_WRAP])
for k, d in (("Q", "-DQUEUE"), ("S", "-DSTACK"), ("R", "-DSPSC")):
    nat("x" + k, "stress", ["-O2", "-pthread", d])
    nat("l" + k, "limits", ["-O1", d])
nat("tagc", "tagged", ["-O2"])
nat("tagd", "tagged", ["-O2", "-mcx16", "-DDCAS_PTR"], ["-latomic"])
RT = ("lfmon", "oracle", "h")
OPTIONAL = {"q8", "q9", "s8", "s9", "cQ0", "cS0", "cR0"}  # other compiler: left out (and said so in the evidence) where it rejects the tree

# ------------------------------------------------------------------ what decides which property
Q, S = [f"q{c}" for c in (0, 1, 2, 4, 5)], [f"s{c}" for c in (0, 1, 2, 4, 5)]
QD, SD = ["q8", "q9"], ["s8", "s9"]
P = [f"{k}{c}" for k in "pt" for c in (0, 1, 2)] + ["p3"]
nQ, nS, nR = (["n%s%d" % (k, p) for p in (0, 1, 2)] for k in "QSR")
aQ, aS, aR = (["a%s%d" % (k, p) for p in (0, 1, 2)] for k in "QSR")


def jobs(names, mode, quick, chunks=1):
    """(target, mode, executions per chunk, chunks in the quick tier)"""
    return [(n, mode, quick // chunks, chunks) for n in names]


J = {
    "C01": jobs(Q, "lin", 60000, 4) + jobs(Q, "wm", 30000, 4) + jobs(QD, "lin", 8000) + jobs(QD, "wm", 5000) + jobs(["xQ"], "", 20),
    "C02": jobs(S, "lin", 24000, 4) + jobs(S, "wm", 12000, 4) + jobs(SD, "lin", 4000) + jobs(SD, "wm", 3000) + jobs(["xS"], "", 20),
    "C03": jobs(S, "lin", 24000, 4) + jobs(S, "wm", 12000, 4) + jobs(SD, "lin", 4000) + jobs(SD, "wm", 2000),
    "C04": jobs(P, "lin", 100000, 2) + jobs(P, "wm", 80000, 2) + jobs(["xR"], "", 40),
    "C05": jobs(Q + S, "wm", 40000, 2) + jobs(QD + SD, "wm", 6000) + jobs(P, "wm", 80000),
    "C06": jobs(Q + S, "aba-small", 20000, 4) + jobs(Q + S, "aba", 1500) + jobs(QD + SD, "aba-small", 2000),
    "C07": jobs(Q + S, "freeze", 100000, 2) + jobs(QD + SD, "freeze", 10000),
    "C08": jobs(P, "lin", 80000) + jobs(P, "freeze", 80000) + jobs(P, "adv", 1200),
    "C09": jobs(Q + S, "lin", 24000) + jobs(P, "lin", 24000) + jobs(nQ + nS + nR, "", 8000),
    "C10": jobs(Q + S, "lin", 40000, 2) + jobs(Q + S, "wm", 12000) + jobs(P, "lin", 24000) + jobs(nQ + nS + nR, "", 8000) + jobs(["xQ", "xS", "xR"], "", 10) + jobs(["lQ", "lS", "lR"], "", 2),
    "C11": jobs(Q + S, "lin", 60000, 2) + jobs(Q + S, "wm", 12000) + jobs(nQ + nS, "", 10000) + jobs(["lQ", "lS"], "", 2),
    "C12": jobs(Q + S, "lin", 12000) + jobs(Q + S, "wm", 8000) + jobs(Q + S, "aba-small", 4000) + jobs(QD + SD, "lin", 3000) + jobs(P, "lin", 12000)
    + jobs(P, "wm", 12000) + jobs(aQ + aS + aR, "", 600),
    "C13": jobs(S, "lin", 50000, 2) + jobs(P, "lin", 60000) + jobs(S, "wm", 16000) + jobs(nS + nR, "", 12000),
    "C14": jobs(Q + S, "lin", 40000, 2) + jobs(P, "lin", 40000) + jobs(nQ + nS + nR, "", 12000),
    "C15": jobs(nQ, "", 60000, 8) + jobs(["cQ0"], "", 8000, 2) + jobs(["lQ"], "", 2),
    "C16": jobs(nS, "", 60000, 8) + jobs(["cS0"], "", 8000, 2) + jobs(["lS"], "", 2),
    "C17": jobs(nR, "", 50000, 8) + jobs(["cR0"], "", 8000, 2) + jobs(["lR"], "", 2),
    "C18": jobs(P, "lin", 100000, 2) + jobs(P, "wm", 80000, 2),
    "C19": jobs(["hQ", "hS", "hR"], "", 5000, 4) + jobs(["xQ", "xS", "xR"], "shm", 14),
    "C20": jobs(nQ + nS + nR, "", 8000, 4),
    "C21": jobs(["lQ", "lS", "lR"], "", 16, 8),
    "C22": jobs(["tagc", "tagd"], "", 80),
}
# quick tier: a check runs for 20-25 s on 8 cores
TIMES = dict(C01=4, C02=3, C03=3, C04=4, C05=2.5, C06=1, C07=6, C08=6, C09=2.5, C10=2, C11=2, C12=2, C13=2, C14=1.5, C15=1.5, C16=1.5, C17=1.5, C18=4, C19=1.5, C20=3, C21=3, C22=4)
TIMES = {p: t * (1.4 if p in ('C02', 'C03', 'C16', 'C17') else 3 if p == "C06" else 2) for p, t in TIMES.items()}  # about 40-60 s of eight cores each
J = {p: [(n, m, max(1, round(c * TIMES[p] / 4)) * 4 if c > 100 else c, k) for n, m, c, k in js] for p, js in J.items()}
LEVEL = {p: "exploration" for p in J}
LEVEL["C20"] = "fault_enumeration"

LIN = ("one controlled execution: 2-6 fibers run random call lists on one structure under a random scheduler (random walk, PCT-like priorities, burst and targeted "
       "preemption), a random initial content, then a quiescent probe; spurious weak-CAS failures are injected")
RULE = {
    "C01": LIN + "; mode wm lets relaxed/acquire loads return stale values the C++ memory model allows. Counted: executions whose event trace (switches, values, results) is new and in which calls overlapped.",
    "C05": LIN + " with vector clocks; loads may return any value C++11 allows. Counted: executions with a new event trace.",
    "C06": "one controlled execution in which a thread is stopped in the middle of a call for a long time while others recycle nodes until the same address/index comes back, then continues; counted: distinct traces",
    "C07": "one controlled execution in which a random set of threads is frozen for ever at random points and the rest must finish within a step bound; counted: distinct traces",
    "C08": "one controlled execution of a producer and a consumer; own steps of every call are counted and compared with a bound in the batch size, also with the other side frozen; counted: distinct traces",
    "C15": "one random call sequence by one thread on one configuration (element type x storage x allocator), every return value and every delivered value compared with a model; counted: distinct (configuration, result sequence)",
    "C19": "one random call sequence in which the structure is mapped at another address before every call and the old mapping is inaccessible; and runs of 2-6 processes using it at once through different mappings; counted: distinct (configuration, result sequence) or delivery pattern",
    "C20": "for each random call sequence the number of fault points (allocations, element copies while adding) is counted, then the sequence is repeated once per point with exactly that one failing; counted: distinct (sequence, failing point)",
    "C21": "one structure of one size filled to the brim, refused, emptied and refilled in several ways with content compared, or one oversize construction that must throw; counted: distinct (kind, size)",
    "C22": "one (pointer, tag, pointer, tag) combination put into a handle and read back after every change; counted: distinct pointer values (at most 400000 are remembered), each with many tags",
}
for p in ("C02", "C03", "C04", "C09", "C10", "C11", "C12", "C13", "C14", "C18"):
    RULE[p] = RULE["C01"] + (" Sequence harness: random single-threaded call sequences on every configuration, compared with a model." if p not in ("C03", "C18") else "")
RULE["C16"] = RULE["C17"] = RULE["C15"]
ASSUME = ["the compiler and the C++ runtime are right", "lfmon's memory model: C++11 atomics without out-of-thin-air and load buffering; plain accesses to node memory are seen in order",
          "x86-64, gcc 13 / clang 18, C++17"]


# ------------------------------------------------------------------ build
def sh(cmd, timeout=900):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/include", V + "/rt", V + "/harness"):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(__file__, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def build(names):
    d = os.path.join(BUILD, tree_hash())
    if os.path.isdir(BUILD):
        for o in os.listdir(BUILD):
            if os.path.join(BUILD, o) != d and time.time() - os.path.getmtime(os.path.join(BUILD, o)) > 1200:
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    pid = str(os.getpid())

    def one(cmds, out):
        if os.path.exists(out):
            return
        for c in cmds:
            last = c is cmds[-1]
            tmp = out + "." + pid
            r = sh([tmp if last and x == out else x for x in c])
            if r.returncode:
                raise BuildError(" ".join(c) + "\n" + r.stdout[:6000])
        os.replace(out + "." + pid, out)

    left_out, broken = {}, {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        rts = [ex.submit(one, [["g++", "-std=gnu++17", "-O2", "-I" + V + "/rt", "-c", f"{V}/rt/{r}.cpp", "-o", f"{d}/{r}.o"]], f"{d}/{r}.o") for r in RT] if any(
            T[n]["kind"] == "mon" for n in names) else []
        comp, link = [], []
        for n in names:
            cmds = T[n]["cmds"](f"{d}/{n}")
            if T[n]["kind"] == "mon":
                if not os.path.exists(f"{d}/{n}"):
                    comp.append((n, ex.submit(one, cmds[:1], f"{d}/{n}.o")))
                link.append((n, cmds[1:], f"{d}/{n}"))
            else:
                comp.append((n, ex.submit(one, cmds, f"{d}/{n}")))

        def wait(n, f):
            try:
                f.result()
            except BuildError as e:
                (left_out if n in OPTIONAL else broken)[n] = str(e)

        for f in rts:
            f.result()
        for n, f in comp:
            wait(n, f)
        for n, f in [(n, ex.submit(one, *l)) for n, *l in link if n not in left_out and n not in broken]:
            wait(n, f)
    for n in names:
        if os.path.exists(f"{d}/{n}.o"):
            os.unlink(f"{d}/{n}.o")
    return d, {n: e[:600] for n, e in left_out.items()}, broken


# ------------------------------------------------------------------ run
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=77")


def run_job(cmd, limit):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = "timeout"
    return rc, out.decode(errors="replace"), time.time() - t0


def verdict(rc, out):
    """-> ('ok', result) | ('violation', key, message) | ('error', message)"""
    m = re.search(r"^(LFMON|NAT)-VIOLATION (\{.*\})$", out, re.M)
    if m:
        try:
            v = json.loads(m.group(2))
        except ValueError:
            v = {"kind": "?", "msg": m.group(2)}
        return "violation", v["kind"] + ": " + re.sub(r"\b(0x)?[0-9a-f]*\d[0-9a-f]*\b", "#", v["msg"]), v["msg"] + " [" + v.get("context", "") + "]"
    m = re.search(r"(ERROR: (Address|Leak)Sanitizer[^\n]*|[^\n]*runtime error:[^\n]*)", out)
    if m:
        return "violation", "sanitizer: " + re.sub(r"0x[0-9a-f]+|\b\d+\b", "#", m.group(1)), m.group(1)
    if isinstance(rc, int) and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
        return "violation", "crash: signal %d" % -rc, "the code under test died from signal %d" % -rc
    if rc == 0:
        m = re.search(r"^RESULT (\{.*\})$", out, re.M)
        if m:
            return "ok", json.loads(m.group(1))
    return "error", "exit %s: %s" % (rc, out[-800:])


def known(prop):
    ks = []
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=\"(.*?)\" (.*)", l)
            if m and m.group(1) == prop:
                ks.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return ks


def write_replay(prop, seed, target, cmd, out, msg):
    d = os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    tag = hashlib.sha256((" ".join(cmd[1:]) + msg).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{target}-{tag}.json")
    with open(p, "w") as f:
        json.dump(dict(property=prop, target=target, args=cmd[1:], message=msg, output=out[-60000:].split("\n"), how="python3 /verif/run.py --replay " + p), f, indent=1)
    return p


def check(prop, tier, seed):
    t0 = time.time()
    js = J[prop]
    names = list(dict.fromkeys(j[0] for j in js))
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL[prop], coverage={}, assumptions=ASSUME, wall_s=0.0, violations=0)

    def finish(code, cov):
        ev["coverage"] = cov
        ev["wall_s"] = round(time.time() - t0, 2)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return code

    d, left_out, broken = build(names)
    js = [j for j in js if j[0] not in left_out and j[0] not in broken]
    if broken:
        txt = "\n".join(broken.values())
        if prop in ("C15", "C16", "C17", "C21"):
            # the documented interface does not compile for some configuration: calling it is impossible
            p = write_replay(prop, seed, "compile", ["c++"], txt, "a documented call does not compile")
            print(txt[:3000])
            ev["violations"] = 1
            finish(1, dict(evaluations=0, distinct_nontrivial=0, rule="a harness that uses the documented interface did not compile", samples=[txt[:1500]]))
            print(f"VIOLATION property={prop} replay={p}")
            return 1
    tb = time.time() - t0
    budget = float(os.environ.get("LF_BUDGET", "600" if tier == "thorough" else "0"))
    work = []
    for (n, mode, cnt, chunks) in js:
        for k in range(chunks):
            work.append((n, mode, cnt, k * cnt))
    lock = threading.Lock()
    agg, per, samples, errors, viol, known_hit = {}, {}, [], [], [], {}
    stop = threading.Event()
    ks = known(prop)

    def go(w):
        n, mode, cnt, frm = w
        if stop.is_set():
            return
        mine = seed * 997 + list(T).index(n)  # configurations see different workloads
        cmd = [f"{d}/{n}", f"--prop={prop}", f"--seed={mine}", f"--from={frm}", f"--n={cnt}"] + ([f"--mode={mode}"] if mode else [])
        limit = 300 if tier == "quick" else 900
        rc, out, dt = run_job(cmd, limit)
        v = verdict(rc, out)
        if v[0] == "error":
            rc, out, dt = run_job(cmd, limit)
            v = verdict(rc, out)
        with lock:
            if v[0] == "ok":
                r = v[1]
                for k, x in r.items():
                    if isinstance(x, int):
                        agg[k] = max(agg.get(k, 0), x) if k.startswith("max_") else agg.get(k, 0) + x
                    elif isinstance(x, dict):
                        g = agg.setdefault(k, {})
                        for kk, y in x.items():
                            g[kk] = g.get(kk, 0) + y
                key = n + ("/" + mode if mode else "")
                e = per.setdefault(key, dict(executions=0, nontrivial=0, seconds=0.0))
                e["executions"] += r["executions"]
                e["nontrivial"] += r["nontrivial"]
                e["seconds"] = round(e["seconds"] + dt, 2)
                if r.get("sample") and len(samples) < 6 and not any(s.startswith(key + ":") for s in samples):
                    samples.append(key + ": " + r["sample"][:1500])
            elif v[0] == "violation":
                for key, what in ks:
                    if key == v[1]:
                        known_hit[key] = what
                        return
                viol.append((n, cmd, out, v[1], v[2]))
                stop.set()
            else:
                errors.append(f"{n} {mode}: {v[1]}")

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(go, work))
        rnd = 1
        while tier == "thorough" and time.time() - t0 < budget and not stop.is_set() and not errors:
            more = []
            for (n, mode, cnt, chunks) in js:
                for k in range(chunks):
                    more.append((n, mode, cnt * 2, (rnd * 2 * chunks + 2 * k) * cnt))
            list(ex.map(lambda w: go(w) if time.time() - t0 < budget else None, more))
            rnd += 1
    cov = dict(evaluations=agg.get("executions", 0), distinct_nontrivial=agg.get("nontrivial", 0), rule=RULE[prop], samples=samples, observed=agg, per_harness=per, left_out=left_out,
               build_s=round(tb, 1), run_s=round(time.time() - t0 - tb, 1))
    for key, what in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    if viol:
        ev["violations"] = len(viol)
        cov["samples"] = (samples or []) + [v[4] for v in viol]
        finish(1, cov)
        for n, cmd, out, key, msg in viol:
            p = write_replay(prop, seed, n, cmd, out, msg)
            print(f"{n}: {msg}\n  key: {key}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    errors += [f"{n} does not compile: {e}" for n, e in broken.items()]
    if errors:
        finish(3, cov)
        print("no answer:\n" + "\n".join(errors[:5]))
        return 3
    finish(0, cov)
    print(f"{prop} held: {cov['evaluations']} executions, {cov['distinct_nontrivial']} distinct and non-trivial, {agg.get('judged', 0)} judged; build {tb:.0f} s, run {cov['run_s']:.0f} s")
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        build(list(T))
        return 0
    if a[:1] == ["--replay"]:
        r = json.load(open(a[1]))
        if r["target"] == "compile":
            print("\n".join(r["output"]))
            return 1
        d, *_ = build([r["target"]])
        rc, out, _ = run_job([f"{d}/{r['target']}"] + r["args"], 900)
        print(out)
        return 1 if verdict(rc, out)[0] == "violation" else 0
    prop = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt.get("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    return check(prop, tier, seed)


sys.exit(main())
