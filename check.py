#!/usr/bin/env python3
"""Decides one property: every obligation which the verifier generates from the
contracts in contracts/ and the current source in /repo has to be discharged.

    check.py ID              exit 0: discharged, exit 1: VIOLATION, 2: no answer
    check.py --replay FILE   run a recorded counterexample against the real code
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "verus"))
sys.dont_write_bytecode = True
import prove  # noqa: E402
BUILD = os.path.join(HERE, ".build")
T0 = time.time()
TIER = os.environ.get("VERIF_TIER") or "quick"
SEED = int(os.environ.get("VERIF_SEED") or "1")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

# Wall clock budgets in seconds.
BUDGET = {"quick": 820, "thorough": 6 * 3600}[TIER]
MAIN = {"quick": 560, "thorough": 5 * 3600}[TIER]
HARNESS = {"quick": 240, "thorough": 3000}[TIER]

# Properties whose harness crate is not contracts/.
CRATES = {"C15": "serde", "C16": "dynamic"}

TRUSTED = [
    "Kani 0.68.0 (MIR to GOTO translation), CBMC 6.11 and its SAT back end",
    "rustc and the standard library as compiled by Kani (its source is part of the verified program)",
    "the harness crate: view functions, the key shapes and the nth() order oracle in /verif/contracts",
]


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    return e


def left():
    return BUDGET - (time.time() - T0)


def run(cmd, cwd, out, timeout):
    """Runs in its own process group, which is ended with it."""
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=env(),
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            code = p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            code = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    return code


def read(path):
    try:
        with open(path, errors="replace") as f:
            return f.read()
    except OSError:
        return ""


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.feature = prop.lower()
        self.crate = os.path.join(HERE, CRATES.get(prop, "contracts"))
        self.lib = re.search(r'name = "([^"]+)"', read(os.path.join(self.crate, "Cargo.toml"))).group(1).replace("-", "_")
        self.features = [self.feature] + (["thorough"] if TIER == "thorough" else [])
        self.dir = os.path.join(BUILD, prop)
        os.makedirs(self.dir, exist_ok=True)
        self.commands = []
        self.notes = []

    def kani(self, name, harnesses=(), extra=(), timeout=600, jobs=8, json_out=True):
        js = os.path.join(self.dir, name + ".json")
        out = os.path.join(self.dir, name + ".out")
        if os.path.exists(js):
            os.remove(js)
        cmd = ["cargo", "kani", "--features", ",".join(self.features),
               "--target-dir", os.path.join(self.dir, "kani"),
               "-Z", "unstable-options", "-Z", "function-contracts"]
        if json_out:
            cmd += ["-j", str(jobs), "--output-format", "terse", "--export-json", js,
                    "--harness-timeout", "%ds" % HARNESS]
        for h in harnesses:
            cmd += ["--harness", h]
        if harnesses:
            cmd += ["--exact"]
        cmd += list(extra)
        self.commands.append(" ".join(cmd) if len(harnesses) < 4 else
                             " ".join(cmd[:12]) + " ... (%d harnesses)" % len(harnesses))
        code = run(cmd, self.crate, out, timeout)
        data = None
        try:
            with open(js) as f:
                data = json.load(f)
        except (OSError, ValueError):
            pass
        return code, read(out), data

    # -- results --------------------------------------------------------

    def results(self, out, data):
        """harness -> dict(status, failed=[checks], undecided=reason or None)"""
        res = {}
        if data is not None:
            props = {p["harness_id"]: p["property_details"] for p in data["property_details"]}
            stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data["cbmc"]}
            for r in data["verification_results"]["results"]:
                h = r["harness_id"]
                checks = r.get("checks") or []
                res[h] = self.classify(h, r["status"], checks, out)
                res[h]["props"] = {k: v for k, v in (props.get(h) or {}).items() if v is not None}
                res[h]["stats"] = stats.get(h) or {}
                res[h]["ms"] = r.get("duration_ms") or 0
        else:
            # The run was cut off: what its output says.
            cur, thread = {}, None
            for line in out.splitlines():
                m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
                if m:
                    cur[m.group(1)] = m.group(2)
                    res[m.group(2)] = dict(status="cut", failed=[], undecided="not finished in time",
                                           props={}, stats={}, ms=0, lines=[])
                    if m.group(1) is None:
                        thread = None
                    continue
                m = re.match(r"Thread (\d+):\s*$", line)
                if m:
                    thread = m.group(1)
                h = cur.get(thread)
                if h is None:
                    continue
                r = res[h]
                r["lines"].append(line)
                m = re.match(r"Failed Checks: (.*)", line)
                if m:
                    r["failed"].append(dict(description=m.group(1), function="", location={}, category=""))
                m = re.match(r"\s*\*\* (\d+) of (\d+) failed", line)
                if m:
                    r["props"] = dict(total_properties=int(m.group(2)), passed=int(m.group(2)) - int(m.group(1)))
                if "VERIFICATION:- SUCCESSFUL" in line:
                    r.update(status="Success", undecided=None)
                elif "VERIFICATION:- FAILED" in line:
                    fails = r["failed"]
                    r.update(self.classify(h, "Failure", [
                        dict(status="FAILURE", description=f["description"], function="", location={},
                             category="unwind" if "unwinding assertion" in f["description"] else
                             "unsupported_construct" if "is not currently supported" in f["description"] else "")
                        for f in fails], out))
        return res

    TOOL = ("unwind", "unsupported_construct", "recursion", "reachability_check")

    def classify(self, h, status, checks, out):
        failed, tool = [], []
        vacuous = False
        for c in checks:
            s = c["status"].upper()
            cat = c.get("category") or ""
            if cat == "cover":
                if s in ("UNSATISFIABLE", "UNREACHABLE"):
                    vacuous = True
                continue
            if s == "FAILURE":
                if cat in self.TOOL or "unwinding assertion" in c["description"]:
                    tool.append(c)
                else:
                    failed.append(c)
        if status.lower() == "success" and not vacuous:
            return dict(status="Success", failed=[], undecided=None)
        if failed:
            # An undecided unwinding does not make a found failure less real.
            return dict(status="Failure", failed=failed, undecided=None)
        if vacuous:
            return dict(status="Vacuous", failed=[], undecided="no input reaches the end of the contract")
        if tool:
            why = sorted({c["category"] or "unwind" for c in tool})
            return dict(status="Undecided", failed=[], undecided="/".join(why) + ": " + tool[0]["description"])
        return dict(status="Undecided", failed=[], undecided="solver timeout or error")

    # -- native runs ------------------------------------------------------

    def native(self, harnesses):
        """A program which runs the same contracts on concrete inputs."""
        d = os.path.join(self.dir, "native")
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        feats = ", ".join('"%s"' % f for f in self.features)
        toml = ('[package]\nname = "native"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n'
                '%s = { path = "%s", features = [%s] }\n\n[workspace]\n') % (
                    self.lib.replace("_", "-"), self.crate, feats)
        crate_toml = read(os.path.join(self.crate, "Cargo.toml"))
        m = re.search(r"^\[patch\..*", crate_toml, re.M | re.S)
        if m:
            toml += re.sub(r'path = "(?!/)', 'path = "%s/' % self.crate, m.group(0))
        arms = "".join('        "%s" => %s::%s,\n' % (h, self.lib, h) for h in harnesses)
        main = NATIVE.replace("@LIB@", self.lib).replace("@ARMS@", arms)
        for path, text in ((os.path.join(d, "Cargo.toml"), toml), (os.path.join(d, "src", "main.rs"), main)):
            if read(path) != text:
                with open(path, "w") as f:
                    f.write(text)
        lock = os.path.join(self.crate, "Cargo.lock")
        if os.path.exists(lock) and not os.path.exists(os.path.join(d, "Cargo.lock")):
            shutil.copy(lock, os.path.join(d, "Cargo.lock"))
        return d

    def native_build(self, harnesses):
        d = self.native(harnesses)
        out = os.path.join(self.dir, "native.out")
        code = run(["cargo", "build", "--offline", "--target-dir", os.path.join(self.dir, "target")],
                   d, out, min(300, left()))
        exe = os.path.join(self.dir, "target", "debug", "native")
        return exe if code == 0 and os.path.exists(exe) else None

    def native_run(self, exe, args, timeout):
        out = os.path.join(self.dir, "run.out")
        code = run([exe] + args, self.dir, out, timeout)
        return code, read(out)

    def miri_run(self, harnesses, args, timeout):
        d = self.native(harnesses)
        out = os.path.join(self.dir, "miri.out")
        code = run(["cargo", "+nightly", "miri", "run", "--offline", "--target-dir",
                    os.path.join(self.dir, "miri"), "--"] + args, d, out, timeout)
        return code, read(out)

    # -- counterexamples ------------------------------------------------

    def counterexamples(self, harness, timeout):
        code, out, _ = self.kani("playback", [harness],
                                 ["-Z", "concrete-playback", "--concrete-playback=print"],
                                 timeout=timeout, json_out=False)
        found = []
        for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
            vals = [[int(x) for x in v.split(",") if x.strip()]
                    for v in re.findall(r"vec!\[([\d,\s]*)\]", m.group(1))]
            if vals not in found:
                found.append(vals)
        return found, out

    def violation(self, harness, res, n):
        """Writes the replay file, and says whether the code was seen to fail."""
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%d.json" % (self.prop, n))
        rec = dict(property=self.prop, harness=harness, tier=TIER,
                   obligations=[dict(description=c["description"], function=c.get("function"),
                                     location=c.get("location")) for c in res["failed"]][:20],
                   input=None, observed=None, how=None, verifier_output=None)
        found, out = ([], "")
        if left() > 60:
            found, out = self.counterexamples(harness, min(200, left() - 50))
        rec["verifier_output"] = out[-6000:]
        exe = self.native_build([harness]) if left() > 20 else None
        inp = os.path.join(self.dir, "input.txt")

        def write(vals):
            with open(inp, "w") as f:
                for v in vals:
                    f.write(" ".join(map(str, v)) + "\n")
        if exe:
            for vals in found:
                write(vals)
                code, text = self.native_run(exe, [harness, "recorded", inp], 20)
                if code not in (0, 3, 4, None):
                    rec.update(input=vals, how="native", observed=text[-2000:])
                    break
            if rec["input"] is None:
                for vals in found[:2]:
                    if left() < 60:
                        break
                    write(vals)
                    code, text = self.miri_run([harness], [harness, "recorded", inp], min(150, left() - 30))
                    if code == 1 and ("Undefined Behavior" in text or "CONTRACT" in text):
                        rec.update(input=vals, how="miri", observed=text[-2000:])
                        break
            if rec["input"] is None and left() > 30:
                code, text = self.native_run(exe, [harness, "random", str(SEED), "400000", inp], min(40, left() - 10))
                if code not in (0, None):
                    vals = [[int(x) for x in l.split()] for l in read(inp).splitlines()]
                    rec.update(input=vals, how="native", observed=text[-2000:])
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        return path, rec

    # -- the check --------------------------------------------------------

    def known(self):
        out = []
        for line in read(os.path.join(HERE, "known-findings.txt")).splitlines():
            m = re.match(r"known: property=(\S+) harness=(\S+) (.*)", line)
            if m and m.group(1) == self.prop:
                out.append((m.group(2), m.group(3)))
        return out

    def main(self):
        # The unbounded layer runs beside the other one.
        self.verus = []
        t = threading.Thread(daemon=True, target=lambda: self.verus.extend(
            prove.prove(self.prop, self.dir, T0 + BUDGET - 60)))
        t.start()
        self.thread = t
        timeout = min(MAIN, left())
        code, out, data = self.kani("main", timeout=timeout)
        res = self.results(out, data)
        if not res:
            errors = "\n".join(l for l in out.splitlines() if l.startswith("error") or "panicked" in l)[:3000]
            print("the verifier gave no result (exit %s)\n%s" % (code, errors or out[-3000:]))
            self.evidence(res, [], [], 0)
            return 2

        # Loops which got longer: the bound is not part of the contract.
        for unwind, limit in ((12, 150), (40, 150)):
            again = [h for h, r in res.items() if (r["undecided"] or "").startswith("unwind")]
            if not again or left() < 200:
                break
            _, o, d = self.kani("unwind%d" % unwind, again, ["--unwind", str(unwind)],
                                timeout=min(limit if TIER == "quick" else 3000, left() - 150))
            for h, r in self.results(o, d).items():
                if h in again and r["status"] in ("Success", "Failure"):
                    res[h] = r

        failing = sorted((h for h, r in res.items() if r["status"] == "Failure"),
                         key=lambda h: (res[h]["ms"] or 10**9, h))
        known = self.known()
        for h, what in known:
            if h in failing:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        failing = [h for h in failing if h not in [k for k, _ in known]]
        undecided = sorted(h for h, r in res.items() if r["undecided"])

        reports = []
        if failing:
            # Different contracts first, the fastest harness of each.
            picked, seen = [], set()
            for h in failing:
                key = h.split("::")[-1]
                if key not in seen:
                    seen.add(key)
                    picked.append(h)
            for n, h in enumerate(picked[:3]):
                if n and left() < 240:
                    break
                path, rec = self.violation(h, res[h], n)
                reports.append((path, rec))
                if rec["input"] is not None:
                    break

        # What the verifier left open gets a bounded check instead, which is
        # never counted as proved.
        bounded = []
        if not failing and undecided:
            exe = self.native_build(undecided) if left() > 30 else None
            share = max(2, min(30, (left() - 20) / max(1, len(undecided)))) if TIER == "quick" else 120
            inp = os.path.join(self.dir, "input.txt")
            for h in undecided:
                if exe is None or left() < 10:
                    break
                c, text = self.native_run(exe, [h, "random", str(SEED), "200000", inp], share)
                m = re.search(r"(\d+) inputs", text)
                bounded.append((h, int(m.group(1)) if m else 0))
                if c not in (0, None):
                    vals = [[int(x) for x in l.split()] for l in read(inp).splitlines()]
                    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                    path = os.path.join(HERE, "replays", "%s-%d.json" % (self.prop, len(reports)))
                    rec = dict(property=self.prop, harness=h, tier=TIER, obligations=[], input=vals,
                               how="native", observed=text[-2000:], verifier_output=res[h]["undecided"])
                    with open(path, "w") as f:
                        json.dump(rec, f, indent=1)
                    reports.append((path, rec))
                    break

        t.join(max(1, left() - 30))
        alarms = [dict(f, kind=r["kind"], code=r["code"]) for r in self.verus for f in r.get("alarms", [])]
        definite = [f for f in alarms if f["definite"]]
        self.evidence(res, reports, bounded, len(failing) or len(definite))
        passed = sum(r["status"] == "Success" for r in res.values())
        print("%s: %d contract instances, %d discharged, %d failed, %d undecided, %.0f s" % (
            self.prop, len(res), passed, len(failing), len(undecided), time.time() - T0))
        for h in failing[:20]:
            for c in res[h]["failed"][:1]:
                print("failed obligation: %s: %s" % (h, c["description"]))
        for h in undecided[:20]:
            print("undecided: %s (%s)" % (h, res[h]["undecided"]))
        if reports:
            best = next(((p, r) for p, r in reports if r["input"] is not None), reports[0])
            path, rec = best
            if rec["observed"]:
                print(rec["observed"].strip()[-800:])
            print("VIOLATION property=%s replay=%s%s" % (
                self.prop, path, "" if rec["input"] is not None else " no-failing-input-found"))
            return 1
        if failing:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (
                self.prop, os.path.join(self.dir, "main.out")))
            return 1
        for r in self.verus:
            if "cut" in r:
                print("Verus, %s: no result: %s" % (r["kind"], r["cut"]))
                continue
            print("Verus, %s: %d functions under contract for every value type, %d obligations, %d failed, %d left out" % (
                r["kind"], len(r["functions"]), r["verified"] + r["errors"], r["errors"], len(r["left_out"])))
        for f in alarms:
            print("%s obligation: %s: %s: %s" % ("failed" if f["definite"] else "undecided", f["function"], f["message"],
                                                 " / ".join(f["clause"])[:300]))
        if definite:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-verus.json" % self.prop)
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, harness=None, tier=TIER, input=None, how="verus", observed=None,
                               obligations=[dict(description="%s: %s" % (d["message"], " / ".join(d["clause"])),
                                                 function=d["function"], location=d["code"]) for d in definite],
                               verifier_output=json.dumps(definite, indent=1)), f, indent=1)
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (self.prop, path))
            return 1
        if passed == 0 or any(r["status"] == "Vacuous" for r in res.values()):
            print("no answer: nothing was decided")
            return 2
        return 0

    def evidence(self, res, reports, bounded, violations):
        ok = [r for r in res.values() if r["status"] == "Success"]
        total = sum(r["props"].get("total_properties") or 0 for r in res.values())
        done = sum(r["props"].get("total_properties") or 0 for r in ok)
        functions = set()
        js = os.path.join(self.dir, "main.json")
        try:
            with open(js) as f:
                data = json.load(f)
            for r in data["verification_results"]["results"]:
                for c in r.get("checks") or []:
                    functions.add((c.get("function") or "", (c.get("location") or {}).get("file") or ""))
        except (OSError, ValueError):
            pass
        repo = sorted({f for f, where in functions if "repo/" in where or "fixed_map" in f or "__MapStorage" in f or "__SetStorage" in f})
        solver = sum(float(r["stats"].get("runtime_decision_procedure_s") or 0) for r in res.values())
        symex = sum(float(r["stats"].get("runtime_symex_s") or 0) for r in res.values())
        coverage = dict(
            obligations=total,
            discharged=done,
            checker_cmd="; ".join(self.commands) or "cargo kani",
            trusted_base=TRUSTED + EXTRA_TRUSTED.get(self.prop, []),
            contract_instances=len(res),
            contract_instances_discharged=len(ok),
            contracts=sorted({h.split("::")[-1] for h in res}),
            back_end="CBMC 6.11 with CaDiCaL",
            solver_s=round(solver, 1),
            symbolic_execution_s=round(symex, 1),
            functions_reached=len(repo),
            functions_reached_sample=[f[:160] for f in repo[:60]],
            vacuity="every instance has a reachability cover at the end of its contract: %d satisfied" % sum(
                r["props"].get("satisfied", 0) for r in res.values()),
            undecided=[dict(harness=h, reason=r["undecided"]) for h, r in sorted(res.items()) if r["undecided"]],
            bounded_stand_ins=[dict(harness=h, random_inputs=n) for h, n in bounded],
        )
        layers = [r for r in getattr(self, "verus", []) if "cut" not in r]
        if layers:
            coverage["obligations"] += sum(r["verified"] + r["errors"] for r in layers)
            coverage["discharged"] += sum(r["verified"] for r in layers)
            coverage["checker_cmd"] += "; " + "; ".join(c for r in layers for c in r["commands"])
            coverage["trusted_base"] = coverage["trusted_base"] + VERUS_TRUSTED
        coverage["unbounded_layer"] = [
            dict(kind=r["kind"], no_result=r["cut"]) if "cut" in r else
            dict(kind=r["kind"], back_end="Verus 0.2026.09.13 with Z3", functions_under_contract=len(r["functions"]),
                 functions_of_this_property=len(r["mine"]), sample=r["mine"][:40], obligations=r["verified"] + r["errors"],
                 discharged=r["verified"], trusted_functions=r["trusted"], solver_s=round(r["smt_ms"] / 1000, 1), left_out=r["left_out"],
                 contracts_without_code=r["lost"],
                 failed=[dict(function=f["function"], message=f["message"], definite=f["definite"]) for f in r["failed"]])
            for r in getattr(self, "verus", [])]
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level="proof", coverage=coverage,
                  assumptions=ASSUMPTIONS + EXTRA_ASSUMPTIONS.get(self.prop, []),
                  wall_s=round(time.time() - T0, 1), violations=violations or len(reports))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


VERUS_TRUSTED = [
    "Verus 0.2026.09.13 and Z3; /verif/verus/extract (what it drops and rewrites is in DESIGN.md)",
    "Verus layer, assumed of std: Option::replace, Option::unwrap_unchecked, mem::replace, mem::take, "
    "usize::from(bool), count_ones, and what vstd assumes",
    "Verus layer, trusted: option_bucket::NoneBucket::insert keeps its contract (discharged by Kani in C09)",
    "Verus layer, assumed: the storages of the components T and S of composite keys keep the storage contract "
    "(induction over the structure of the key)",
]

ASSUMPTIONS = [
    "Keys: the contracts are discharged for the key types in contracts/src/shapes.rs, which cover each storage "
    "(unit array, each bitset width, bool, unit, option, composite, nesting); other declarations of the same shape "
    "expand to the same code.",
    "Values are u8 (and instrumented types where drops or partial order matter); every value is quantified over.",
    "Every instance is quantified over every state of its key, but those named sparse or pair (iterators of large "
    "composite keys), which are bounded to states with at most two entries.",
    "Loops are unrolled with unwinding assertions on: complete for the finite key types used.",
    "Machine arithmetic is bit-precise; panics abort (no unwinding); allocation does not fail.",
]
EXTRA_ASSUMPTIONS = {
    "C14": ["Items supplied to bulk construction: at most four (bounded), with any keys, values and repetitions."],
    "C15": ["Items read: at most four (bounded). The format is the harness's own: it hands over keys and values as "
            "numbers, with any order, repetition, hint and any point of failure.",
            "serde's own impls for the key and value types, and its derive, are not under contract here."],
    "C16": ["hashbrown: the assumed contract in dynamic/hashbrown, a finite map and set with an unspecified order "
            "(quantified over two orders), stands in for the dependency. At most three entries (bounded).",
            "Keys: whole domain for integers, char and their options; four values each for strings and byte strings."],
}
EXTRA_TRUSTED = {
    "C15": ["the mini format in serde/src/format.rs; serde 1.0 as compiled by Kani (its source is part of the verified program)"],
    "C16": ["the assumed contract of hashbrown 0.13 in dynamic/hashbrown"],
}

NATIVE = r'''
use @LIB@::nd::{AssumeFailed, OutOfInput, Source, SOURCE};
use std::panic::{catch_unwind, set_hook};

fn harness(name: &str) -> fn() {
    match name {
@ARMS@        _ => std::process::exit(9),
    }
}

enum End { Held, Assumed, Out, Failed }

fn once(f: fn()) -> End {
    match catch_unwind(f) {
        Ok(()) => End::Held,
        Err(e) if e.is::<AssumeFailed>() => End::Assumed,
        Err(e) if e.is::<OutOfInput>() => End::Out,
        Err(_) => End::Failed,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let f = harness(&args[1]);
    set_hook(Box::new(|info| {
        let p = info.payload();
        if !p.is::<AssumeFailed>() && !p.is::<OutOfInput>() {
            eprintln!("CONTRACT FAILED: {info}");
        }
    }));
    if args[2] == "recorded" {
        let text = std::fs::read_to_string(&args[3]).unwrap();
        let vals = text.lines().map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect()).collect();
        SOURCE.with(|s| *s.borrow_mut() = Source::Recorded(vals));
        std::process::exit(match once(f) {
            End::Held => 0,
            End::Assumed => 3,
            End::Out => 4,
            End::Failed => 1,
        });
    }
    let seed: u64 = args[3].parse().unwrap();
    let count: u64 = args[4].parse().unwrap();
    let mut ran = 0u64;
    let started = std::time::Instant::now();
    for i in 0..count {
        if started.elapsed().as_secs() >= 30 {
            break;
        }
        let state = (seed ^ (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)) | 1;
        SOURCE.with(|s| *s.borrow_mut() = Source::Random(state, Vec::new()));
        match once(f) {
            End::Held => ran += 1,
            End::Failed => {
                SOURCE.with(|s| {
                    if let Source::Random(_, log) = &*s.borrow() {
                        let text: String = log
                            .iter()
                            .map(|v| v.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" ") + "\n")
                            .collect();
                        std::fs::write(&args[5], text).unwrap();
                    }
                });
                std::process::exit(1);
            }
            _ => {}
        }
    }
    println!("{ran} inputs");
}
'''


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    c = Check(rec["property"])
    if rec["tier"] == "thorough" and "thorough" not in c.features:
        c.features.append("thorough")
    for o in rec["obligations"]:
        print("obligation: %s" % o["description"])
    if rec["input"] is None:
        print(rec["verifier_output"])
        return 0
    inp = os.path.join(c.dir, "input.txt")
    with open(inp, "w") as f:
        for v in rec["input"]:
            f.write(" ".join(map(str, v)) + "\n")
    if rec["how"] == "miri":
        code, text = c.miri_run([rec["harness"]], [rec["harness"], "recorded", inp], 600)
    else:
        exe = c.native_build([rec["harness"]])
        code, text = c.native_run(exe, [rec["harness"], "recorded", inp], 60)
    print(text)
    print("fails" if code not in (0, 3, 4) else "holds")
    return 1 if code not in (0, 3, 4) else 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 2:
        print(__doc__)
        sys.exit(2)
    try:
        code = Check(sys.argv[1]).main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
