#!/usr/bin/env python3
"""Decide one property: check.py ID [--thorough].

Builds the symbolic executor, compiles the harness with all of /repo (as it is
now) to LLVM IR, and runs the property's entries symbolically. A violation is
replayed on the natively compiled code before it is reported.
Exit 0: held on everything explored; 1: VIOLATION; 3: the check itself failed.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS

T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", HOME=os.environ.get("HOME", "/root"))
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"): ENV.pop(k, None)
ENGINE = f"{V}/engine/target/release/symx"
HARD = 840


def sh(cmd, cwd, log, env=ENV, timeout=700):
    with open(log, "w") as f:
        try:
            return subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return 124


def note(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def tail(p, n=25):
    try:
        return "".join(open(p, errors="replace").readlines()[-n:])
    except OSError:
        return ""


class Fail(Exception):
    pass


class Build(threading.Thread):
    """Something built in the background."""
    def __init__(self, what, cmd, cwd, log, env=ENV):
        super().__init__(daemon=True)
        self.what, self.cmd, self.cwd, self.log, self.env = what, cmd, cwd, log, env
        self.t = 0
        self.start()

    def run(self):
        t = time.time()
        self.rc = sh(self.cmd, self.cwd, self.log, self.env)
        self.t = time.time() - t

    def need(self):
        self.join()
        if self.rc != 0:
            raise Fail(f"building {self.what} failed (status {self.rc}):\n{tail(self.log)}")


def build_engine(log):
    return Build("the executor", ["cargo", "build", "--release", "--offline"], f"{V}/engine", log)


def build_native(log):
    e = dict(ENV, RUSTFLAGS="--cfg rustix_use_libc -A warnings", CARGO_TARGET_DIR=f"{V}/native/target")
    return Build("the native replay", ["cargo", "build", "--offline", "--bins"], f"{V}/native", log, e)


def build_ir(which, log):
    return Build(f"the IR ({which})", ["bash", "build-ir.sh", which, f"{V}/harness/target"], f"{V}/harness", log)


def build_sqlite(log):
    return Build("the IR of SQLite", ["bash", "build-sqlite.sh", f"{V}/harness/target"], f"{V}/harness", log)


def ir_file(which):
    c = glob.glob(f"{V}/harness/target/release/deps/{which}-*.ll")
    if not c: raise Fail(f"no IR for {which}")
    c.sort(key=os.path.getmtime)
    return c[-1]


def symx(ir, entry, out, secs, extra=()):
    os.makedirs(out, exist_ok=True)
    r = subprocess.run([ENGINE, ir, entry, out, "--time", str(secs), *extra], capture_output=True, text=True, timeout=secs + 120, errors="replace")
    try:
        j = json.load(open(f"{out}/result.json"))
    except (OSError, ValueError) as e:
        raise Fail(f"the executor gave no result for {entry}: {e}\n{r.stderr[-2000:]}")
    j["rc"] = r.returncode
    return j


def native(bin, entry, inputs, env=None, timeout=90):
    """Replay on the real machine, in a scratch directory. -> (verdict, text)"""
    d = tempfile.mkdtemp(prefix="hxn-")
    try:
        f = f"{d}/inputs"
        with open(f, "w") as o:
            for k, v in inputs.items(): o.write(f"{k}={v[0]}\n")
        os.mkdir(f"{d}/cwd")
        e = dict(ENV, SX_INPUTS=f, HOME=d, TMPDIR=d, **(env or {}))
        try:
            r = subprocess.run(["timeout", "-s", "KILL", str(timeout), f"{V}/native/target/debug/{bin}", entry], cwd=f"{d}/cwd", env=e,
                               capture_output=True, text=True, errors="replace")
        except OSError as x:
            return "error", str(x)
        t = r.stdout + "\n" + r.stderr[-3000:]
        m = re.search(r"REPLAY-VIOLATION: (.*)", t)
        if m: return "violation", m.group(1)
        if "REPLAY-DIVERGED" in t: return "diverged", t[-500:]
        if "REPLAY-END" in t: return "end", ""
        if r.returncode == -9 or r.returncode == 137: return "violation", "hang: no end within the time limit"
        if r.returncode != 0: return "violation", f"the process dies (status {r.returncode}): {r.stderr[-400:]}"
        return "error", t[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reproduce(bin, ir, entry, vs, nat, out, also):
    """Replay counterexamples. -> (how, the one reproduced, log); how: None if none is"""
    log = []
    nat.need()
    end = time.time() + 150
    for v in vs:
        k, t = native(bin, entry, v["inputs"])
        log.append(f"native, recorded inputs: {k} {t}")
        if k == "violation": return "native", v, log
        if time.time() > end: break
    for v in vs[:3]:
        inputs = v["inputs"]
        names = {k.split("#")[0] for k in inputs}
        swept = [n for n in ("crash", "fault", "meanwhile") if n in names]
        # the machine counts operations differently (compressed sizes, read-ahead)
        for n in swept:
            var = {"crash": "SX_CRASH", "fault": "SX_FAULT", "meanwhile": "SX_MEANWHILE"}[n]
            end = time.time() + 60
            x = 0
            while x < 160 and time.time() < end:
                for p in ((x, x + 1000000) if n == "crash" else (x,)):
                    k, t = native(bin, entry, inputs, {var: str(p)})
                    if k == "violation":
                        log.append(f"native, {n} at {p}: {k} {t}")
                        return "native", v, log
                x += 1
        # schedules, timing and crash points of the executor's own machine: run the
        # compiled code once more with every input pinned
        if swept or any(k.startswith(("sched@", "cpus", "dirorder", "env.")) for k in inputs):
            pins = []
            for k, x in inputs.items(): pins += ["--pin", f"{k}={x[0]}"]
            if not pins: pins = ["--pin", "none=0"]
            j = symx(ir, entry, out + "-pin", 120, [*also, *pins])
            if j["violation_list"]:
                log.append("executor, all inputs pinned: " + j["violation_list"][0]["message"])
                return "executor", v, log
    log.append("not reproduced")
    return None, None, log


def known():
    """known: property=ID entry=E message=REGEX | what fails"""
    out = []
    for l in open(f"{V}/known-findings.txt"):
        m = re.match(r"known: property=(\S+) entry=(\S+) message=(.*?) \| (.*)", l.strip())
        if m: out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    P = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev = f"{V}/evidence"
    os.makedirs(ev, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"symx-{pid}-")
    status = 0
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], entries={}, functions_encoded={}, queries=0, sat=0, unsat=0,
               answered_from_cache=0, solver_s=0.0, slowest_query_s=0.0, exhaustive=True, bounds=P["bounds"], undecided_paths=0)
    assumptions = list(P.get("assumptions", [])) + COMMON
    nviol = 0
    try:
        entries = P["entries"]
        only = [a[8:] for a in sys.argv if a.startswith("--entry=")]
        if only: entries = [e for e in entries if e["name"] in only]
        # the thorough-only entries
        entries = [e for e in entries if tier == "thorough" or not e.get("thorough_only")]
        note(f"{pid} {P['title']} ({tier}): building")
        eng = build_engine(f"{work}/engine.log")
        bins = list(dict.fromkeys(e.get("bin", "hx") for e in entries))
        sql = build_sqlite(f"{work}/sqlite.log") if any(e.get("sqlite") for e in entries) else None
        eng.need()
        if sql: sql.need()
        irs = {}
        for b in bins:
            x = build_ir(b, f"{work}/ir-{b}.log")
            x.need()
            irs[b] = ir_file(b)
        nat = build_native(f"{work}/native.log")
        note("built")
        known_ = [k for k in known() if k[0] == pid]
        samples = []
        for e in entries:
            b = e.get("bin", "hx")
            secs = e.get("thorough", 600) if tier == "thorough" else e.get("quick", 60)
            if tier == "quick": secs = max(10, min(secs, HARD - 200 - (time.time() - T0)))
            ex = ["--deep"] if tier == "thorough" else []
            mine = [k for k in known_ if k[1] == e["name"]]
            ex += ["--violations", "40"] if mine else ["--violations", "12", "--grace", "6"]
            also = ["--also", f"{V}/harness/target/sqlite3.ll"] if e.get("sqlite") else []
            ex += also
            j = symx(irs[b], e["name"], f"{work}/{e['name']}", secs, ex)
            note(f"{e['name']}: {j['paths']} paths, {j['queries']} queries, {j['steps']} steps, {j['wall_s']} s, {j['violations']} violations, {j['errors']} undecided"
                 + ("" if j["abandoned"] == 0 else f", stopped with {j['abandoned']} paths open"))
            cov["states"] += j["forks"] + 1
            cov["transitions"] += j["steps"]
            for k, f in (("queries", "queries"), ("sat", "sat"), ("unsat", "unsat"), ("answered_from_cache", "cached"), ("solver_s", "solver_s")): cov[k] = round(cov[k] + j[f], 3)
            cov["slowest_query_s"] = max(cov["slowest_query_s"], j["slowest_s"])
            for f, fs in j["functions"].items(): cov["functions_encoded"].setdefault(f, set()).update(fs)
            done = j["abandoned"] == 0 and j["errors"] == 0
            cov["exhaustive"] &= done
            cov["undecided_paths"] += j["errors"]
            cov["entries"][e["name"]] = dict(what=e["what"], paths=j["paths"], forks=j["forks"], infeasible=j["infeasible"], steps=j["steps"], queries=j["queries"],
                                            solver_s=j["solver_s"], wall_s=j["wall_s"], reached=j["reached"], exhausted=done, open_paths=j["abandoned"], ir_functions=j["ir_functions"])
            cov["z3"] = j["z3"]
            fresh = []
            for v in j["violation_list"]:
                k = next((k for k in mine if re.search(k[2], v["message"])), None)
                if k: print(f"KNOWN-FINDING: property={pid} {k[3]}", flush=True)
                else: fresh.append(v)
            if fresh:
                for v in fresh[:3]: note(f"{e['name']}: counterexample: {v['message']}")
                how, v, log = reproduce("hxn" if b == "hx" else "hkn", irs[b], e["name"], fresh[:12], nat, f"{work}/{e['name']}", also)
                for l in log: note("  " + l[:600])
                if how is None:
                    note("  no counterexample reproduces: not reported")
                    status = max(status, 3)
                else:
                    rp = f"{ev}/{pid}-{e['name']}.replay.json"
                    json.dump(dict(property=pid, entry=e["name"], message=v["message"], reproduced=how, replay=log, inputs=v["inputs"], log=v["log"], stack=v["stack"], stderr=v["stderr"]), open(rp, "w"), indent=1)
                    for l in v["log"][-12:]: note("    " + str(l)[:300])
                    nviol += 1
                    print(f"VIOLATION property={pid} replay={rp}", flush=True)
                    status = 1
            if status == 1: break
            if j["errors"]:
                for x in j["error_list"][:3]: note(f"  undecided: {x['message']}" + "".join(f"\n      {s[:300]}" for s in x["stack"][:4]))
            if j["dead_workers"]: raise Fail(f"{e['name']}: {j['dead_workers']} workers of the executor died")
            if not fresh and not j["violation_list"] and not j["reached"].get("end"):
                raise Fail(f"{e['name']}: no path reached the end")
            for s in j["samples"][:2]: samples.append((b, e["name"], s))
        # the executor's machine against the real one: replay some explored paths
        if status == 0:
            nat.need()
            for b, n, s in samples[:10]:
                if any(k.startswith("sched@") for k in s["inputs"]): continue
                k, t = native("hxn" if b == "hx" else "hkn", n, s["inputs"])
                cov["samples"].append(dict(entry=n, inputs={a: x[0] for a, x in list(s["inputs"].items())[:40]}, native=k, log=s["log"][-8:]))
                if k == "end": cov["traces_validated_against_impl"] += 1
                else: note(f"note: natively, a path of {n} ends otherwise: {k} {t[:300]}")
        for b, n, s in samples:
            if not cov["samples"]: cov["samples"].append(dict(entry=n, inputs={a: x[0] for a, x in list(s["inputs"].items())[:40]}, log=s["log"][-8:]))
    except Fail as f:
        print(f"check failed: {f}", flush=True)
        status = status or 3
    except subprocess.TimeoutExpired as f:
        print(f"check failed: {f}", flush=True)
        status = status or 3
    finally:
        if not os.environ.get("KEEP"): shutil.rmtree(work, ignore_errors=True)
    cov["functions_encoded"] = {f: sorted(x) for f, x in sorted(cov["functions_encoded"].items())}
    if status != 0: cov["exhaustive"] = False
    json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=assumptions, wall_s=round(time.time() - T0, 1), violations=nviol),
              open(f"{ev}/{pid}.json", "w"), indent=1)
    note(f"{pid}: " + {0: "held on everything explored", 1: "VIOLATED", 3: "the check failed"}[status]
         + (f" ({'exhaustive within the bounds' if cov['exhaustive'] else 'not exhaustive'})" if status == 0 else ""))
    sys.exit(status)


COMMON = [
    "SHA-224 is modelled as injective on the messages hashed (equal digests only for equal messages)",
    "zstd is replaced by an invertible stored format with a checksum; the real code runs in the native replay",
    "the operating system (files, directories, pipes, futexes, clocks) is modelled by the executor; sequentially consistent memory",
]
if __name__ == "__main__":
    main()
