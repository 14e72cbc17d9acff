#!/usr/bin/env python3
"""Decides one property for the code in /repo's working tree.

  check.py C04 [quick|thorough]     run the check (VERIF_SEED, VERIF_TIER are honoured)
  check.py setup                    build the harness, parse the specifications
  check.py replay FILE              run one recorded counterexample again, with TLC's step by step trace

1. the harness is rebuilt from /repo's working tree;
2. the TLA+ models of the property are checked by TLC;
3. histories (generated from the models, and seeded random ones) are run on the real encoders;
4. TLC validates every recorded execution against the specification (spec/ApiTrace.tla).

Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: the check itself failed.
"""
import json, os, re, resource, shutil, subprocess, sys, time, glob, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "gen"))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------- building
def build(release=False):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    # cargo decides by time stamps; the tree may have been replaced by one with older files
    for d in glob.glob(os.path.join(BUILD, "target", "debug", ".fingerprint", "*")):
        if os.path.basename(d).startswith(("deflate-", "vharness-")):
            shutil.rmtree(d, ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])
    return os.path.join(BUILD, "target", "debug", "vharness")


# ------------------------------------------------------------------------------------------ TLC
def tlc(module, cfg, work, workers=1, env=None, heap="2500m", args=(), timeout=800, soft=None):
    """Run TLC in a scratch copy of the specification; returns (exit code, output)."""
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss256m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(work, "states"),
           "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out: %s %s" % (module, cfg))
    finally:
        shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    return r.returncode, r.stdout


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def counts(out):
    m = STATES.findall(out)
    if not m:
        m = re.findall(r"^Progress.*?: ([\d,]+) states generated.*?, ([\d,]+) distinct", out, re.M)
        m = [(a.replace(",", ""), b.replace(",", "")) for a, b in m]
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def printed(out, mark):
    """Values printed by PrintT(mark \\o ToJson(..))."""
    res = []
    for l in out.splitlines():
        if l.startswith('"' + mark + " "):
            res.append(json.loads(json.loads(l)[len(mark) + 1:]))
    return res


class Model:
    """One TLC run on a model. expect: 'ok', or the name of the property that must be violated (a
    deliberately broken variant, which shows that the property is not vacuous)."""

    def __init__(self, module, cfg, expect="ok", workers=2, heap="3000m", args=(), gen=None, note="", over=None):
        """over: constants that differ from the ones in the configuration file."""
        self.module, self.cfg, self.expect, self.workers = module, cfg, expect, workers
        self.heap, self.args, self.gen, self.note, self.over = heap, args, gen, note, over or {}

    def run(self, work):
        t = time.time()
        w = os.path.join(work, "m-%s-%d" % (self.cfg, id(self)))
        os.makedirs(w, exist_ok=True)
        txt = open(os.path.join(SPEC, self.cfg)).read()
        for k, v in self.over.items():
            txt, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), txt)
            if n != 1:
                raise ToolError("%s: no constant %s" % (self.cfg, k))
        cfg = os.path.join(w, self.cfg)
        open(cfg, "w").write(txt)
        code, out = tlc(self.module, cfg, w, self.workers,
                        heap=self.heap, args=self.args, env={"VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
        self.states, self.distinct = counts(out)
        self.out = out
        if self.expect == "ok":
            if code != 0:
                open(os.path.join(BUILD, "model-" + self.cfg + ".out"), "w").write(out)
                raise ToolError("model %s %s: TLC exit %d\n%s" % (self.module, self.cfg, code, out[-3000:]))
        else:
            if code not in (12, 13) or not any(x in out for x in self.expect.split("|")):
                raise ToolError("model %s %s: expected a violation of %s, TLC exit %d\n%s" %
                                (self.module, self.cfg, self.expect, code, out[-1500:]))
        self.wall = time.time() - t
        return self

    def report(self):
        return {"module": self.module, "config": self.cfg, "overrides": {k: str(v) for k, v in self.over.items()}, "expected": self.expect, "states": self.states,
                "distinct": self.distinct, "wall_s": round(self.wall, 1), "note": self.note}


# ------------------------------------------------------------------------- recording, validating
def run_harness(harness, groups, work, timeout_s, extra=()):
    sc = os.path.join(work, "scenarios.txt")
    out = os.path.join(work, "log.ndjson")
    with open(sc, "w") as f:
        for g in groups:
            f.write("".join(l + "\n" for l in g) + "\n")
    # a call that allocates without end is the end of the process, not of the machine
    limit = lambda: resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    r = subprocess.run([harness, sc, out, str(JOBS), str(timeout_s), *extra], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, preexec_fn=limit)
    if r.returncode == 2:
        raise ToolError("harness: " + r.stdout[-2000:])
    if r.returncode != 0 or not os.path.exists(out):
        return None, None, r.returncode  # the process itself died: stack overflow or abort in the code under test
    res = {}
    summary = None
    with open(out) as f:
        for l in f:
            i, j = l.rstrip("\n").split(" ", 1)
            if i == "#":
                summary = json.loads(j)
            else:
                res.setdefault(int(i), []).append(j)
    os.remove(out)
    if summary is None:
        raise ToolError("harness output is incomplete")
    return [(groups[i], res[i]) for i in sorted(res)], summary, 0


def dying(harness, groups, work, most=3, extra=()):
    """The groups that take the process down with them, by bisection; at most some."""
    todo, dead = [groups], []
    while todo and len(dead) < most:
        g = todo.pop()
        _, _, code = run_harness(harness, g, work, 30, extra)
        if code:
            if len(g) == 1:
                dead.append((g[0], code))
            else:
                todo += [g[len(g) // 2:], g[:len(g) // 2]]
    return dead


def record_all(harness, groups, work):
    """Runs the scenarios; returns a list of (scenario lines, json lines), and the groups that are fatal."""
    gs, summary, code = run_harness(harness, groups, work, 60)
    if not code:
        if len(gs) != len(groups):
            raise ToolError("harness returned %d of %d groups" % (len(gs), len(groups)))
        return gs, []
    dead = dying(harness, groups, work)
    if not dead:
        raise ToolError("harness ended with code %d, but not again" % code)
    gone = {id(g) for g, _ in dead}
    ok = [g for g in groups if id(g) not in gone]
    gs, summary, code = run_harness(harness, ok[:60], work, 60)
    return ([] if code else gs), dead


MOST = 400


def screen(harness, prop, groups, work, seconds):
    """Runs many more executions and returns those which TLC should judge, because the harness thinks that
    they look wrong (harness/src/triage.rs): of every kind of suspicion the ones that are judged soonest."""
    gs, summary, code = run_harness(harness, groups, work, 20, ["screen", str(seconds), str(MOST)])
    if code:
        return [], {"died": code}, dying(harness, groups, work, 1, ["screen", str(seconds), str(MOST)])
    kinds = {}
    for g, js in gs:
        kinds.setdefault(tuple(sorted({c for j in js for c in triage_of(j)})), []).append((g, js))
    picked = []
    for k in sorted(kinds):
        picked += sorted(kinds[k], key=lambda x: weight(x[1]))[:3]
    picked.sort(key=lambda x: weight(x[1]))
    picked = picked[:40]
    summary["given_to_tlc"] = sum(len(js) for _, js in picked)
    return picked, summary, []


def triage_of(j):
    return json.loads(re.search(r'"tri":(\[.*?\])', j).group(1))


def weight(js):
    """Roughly how long TLC takes to validate an execution."""
    n = 0
    for l in js:
        n += len(l) + 30000
        if '"fl":1' in l:
            n += len(l)
        if '"fmt":"gzip"' in l:
            n += len(l)
    return n


def validate(prop, recorded, work, cfg="Trace.cfg"):
    """TLC validates all executions, split over several JVMs. Returns verdicts and state counts."""
    n = JOBS
    shards = [[] for _ in range(n)]
    load = [0] * n
    for g, js in sorted(recorded, key=lambda x: -weight(x[1])):
        i = load.index(min(load))
        shards[i].append(js)
        load[i] += weight(js)
    shards = [s for s in shards if s]

    def one(i):
        f = os.path.join(work, "shard%d.ndjson" % i)
        with open(f, "w") as h:
            for js in shards[i]:
                for l in js:
                    h.write(l + "\n")
        code, out = tlc("Trace.tla", cfg, os.path.join(work, "t%d" % i), 1,
                        env={"TRACE_FILE": f, "PROP": prop}, timeout=840)
        v = printed(out, "VERDICT")
        want = sum(len(js) for js in shards[i])
        if code != 0 or len(v) != want:
            keep = os.path.join(BUILD, "failed-shard.ndjson")
            shutil.copy(f, keep)
            raise ToolError("trace validation: TLC exit %d, %d of %d executions accounted for (%s)\n%s" %
                            (code, len(v), want, keep, out[-3000:]))
        os.remove(f)
        return v, counts(out)

    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(len(shards))))
    return [v for r in res for v in r[0]], sum(r[1][0] for r in res), sum(r[1][1] for r in res)


# ------------------------------------------------------------------------------------ findings
def known_findings():
    """Lines `finding: property=<id> scenario=<id> clause=<clause> <text>`; `fixed:` lines only inform."""
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\S+) scenario=(\S+) clause=(\S+) (.*)", l)
        if m:
            res.append(m.groups())
    return res


def run_check(prop, tier):
    import plans
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return _run(prop, tier, seed, work, t0, plans)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _run(prop, tier, seed, work, t0, plans):
    harness = build()
    t1 = time.time()
    models = plans.models(prop, tier, Model)
    gens = [m for m in models if m.gen]
    rest = [m for m in models if not m.gen]
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda m: m.run(work), gens))
    histories = {}
    for m in gens:
        histories.setdefault(m.gen, []).extend(printed(m.out, "HISTORY"))
        m.out = ""
    groups = plans.scenarios(prop, tier, seed, histories)
    t2 = time.time()
    with ThreadPoolExecutor(1) as bg:
        fut = bg.submit(lambda: [m.run(work) for m in rest])
        recorded, dead = record_all(harness, groups, work)
        more = plans.screened(prop, tier, seed, histories)
        suspects, screened, dead2 = screen(harness, prop, more, work, plans.screen_seconds(prop, tier)) if more else ([], {}, [])
        recorded += suspects
        dead += dead2
        t3 = time.time()
        verdicts, states, distinct = validate(prop, recorded, work)
        fut.result()
    t4 = time.time()
    if os.environ.get("VERIF_DEBUG"):
        import collections
        ev = collections.Counter()
        for g, js in recorded:
            for l, j in zip(g, js):
                ev[l[:200]] = j[j.rindex('"ev":'):].count("[")
        print(ev.most_common(12))
    group_of = {}
    looks = {}
    for g, js in recorded:
        for j in js:
            looks[json.loads(re.search(r'"id":("[^"]*")', j).group(1))] = set(triage_of(j))
        for l in g:
            group_of[re.search(r"(?:^| )id=(\S+)", l).group(1)] = g
    bad = []
    for v in verdicts:
        for x in v["bad"]:
            bad.append((v["id"], x["c"], x))
    known = [k for k in known_findings() if k[0] == prop]
    hit, new = [], []
    for b in bad:
        k = [k for k in known if k[1] == b[0] and k[2] == b[1]]
        (hit if k else new).append((b, k[0] if k else None))
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*")):
        os.remove(f)
    reported = 0
    out = []
    for sid in sorted({b[0][0] for b in new}, key=lambda s: len(" ".join(group_of[s]))):
        cl = sorted({b[0][1] for b in new if b[0][0] == sid})
        if reported < 5:
            p = os.path.join(rdir, "%s-%d.txt" % (prop, reported + 1))
            first = next(b[0][2] for b in new if b[0][0] == sid)
            with open(p, "w") as f:
                f.write("# property=%s scenario=%s clauses=%s\n# first: event %s, stream %s, output bit %s, input byte %s\n" %
                        (prop, sid, ",".join(cl), first["i"], first["s"], first["p"], first["o"]))
                f.write("# replay: check.py replay %s\n" % p)
                f.write("".join(l + "\n" for l in group_of[sid]))
            out.append("VIOLATION property=%s replay=%s  # %s: %s" % (prop, p, sid, ",".join(cl)))
        reported += 1
    for g, code in dead:
        p = os.path.join(rdir, "%s-dead%d.txt" % (prop, reported + 1))
        with open(p, "w") as f:
            f.write("# property=%s the process ended with code %s\n" % (prop, code) + "".join(l + "\n" for l in g))
        out.append("VIOLATION property=%s replay=%s  # process died with code %s" % (prop, p, code))
        reported += 1
    for b, k in hit:
        log("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    tot = lambda f: sum(f(v["stat"]) for v in verdicts)
    stats = {"executions": len(verdicts), "events": tot(lambda s: s["steps"]), "goals_decoded": tot(lambda s: s["goals"]),
             "literals": tot(lambda s: s["lits"]), "matches": tot(lambda s: s["mats"]),
             "blocks_stored_fixed_dynamic": [tot(lambda s, i=i: s["nb"][i]) for i in range(3)],
             "tokens_searched": tot(lambda s: s["srch"]), "sink_calls": tot(lambda s: s["sinks"]), "failed_calls": tot(lambda s: s["errs"])}
    fams = {}
    for g in groups:
        f = re.search(r"(?:^| )id=([A-Za-z]+)", g[0]).group(1)
        fams[f] = fams.get(f, 0) + len(g)
    others = sorted({c for v in verdicts for c in v["other"]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": states + sum(m.states for m in models),
              "transitions": max(0, states - len(verdicts)) + sum(max(0, m.states - 1) for m in models),
              "distinct_states": distinct + sum(m.distinct for m in models),
              "traces_validated_against_impl": len(verdicts),
              "trace_states": states,
              "models": [m.report() for m in models],
              "seen_in_traces": stats,
              "families": fams,
              "histories_from_models": {k: len(v) for k, v in histories.items()},
              "clauses_judged": plans.clause_note(prop),
              "other_clauses_seen": others,
              "screened": screened,
              "triage_agrees_with_tlc": sum(1 for v in verdicts if bool(v["bad"]) <= bool(looks[v["id"]])),
              "samples": [g[-1][:400] for g in groups[:: max(1, len(groups) // 6)]][:8],
              "seconds": {"build": round(t1 - t0, 1), "generate": round(t2 - t1, 1), "record": round(t3 - t2, 1), "validate": round(t4 - t3, 1)},
          },
          "assumptions": plans.assumptions(prop),
          "wall_s": round(time.time() - t0, 2), "violations": reported}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d executions, %d trace states, %d models (%d states), %s, %.1f s" %
        (prop, tier, len(verdicts), states, len(models), sum(m.states for m in models),
         "%d violating" % reported if reported else "held", time.time() - t0))
    for l in out:
        log(l)
    return 1 if reported else 0


def replay(path):
    harness = build()
    work = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        txt = open(path).read().splitlines()
        prop = re.search(r"property=(\S+)", txt[0]).group(1)
        g = [l for l in txt if l and not l.startswith("#")]
        recorded, _, code = run_harness(harness, [g], work, 60)
        if code:
            log("the process died:", code)
            return 1
        f = os.path.join(work, "log.ndjson")
        open(f, "w").write("".join(l + "\n" for l in recorded[0][1]))
        for l in recorded[0][1]:
            d = json.loads(l)
            log(d["id"], "events (first 60):", json.dumps(d["ev"][:60]))
        verdicts, _, _ = validate(prop, recorded, work)
        for v in verdicts:
            log(json.dumps(v))
        return 1 if any(v["bad"] for v in verdicts) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    build()
    for m in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
        r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(m)], cwd=SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError(m + "\n" + r.stdout[-2000:])
    log("set up")
    return 0


def main():
    try:
        if sys.argv[1] == "setup":
            return setup()
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return run_check(sys.argv[1], tier)
    except ToolError as e:
        log("check failed:", e)
        return 2
    except Exception:
        import traceback
        log("check failed:", traceback.format_exc())
        return 2


if __name__ == "__main__":
    sys.exit(main())
