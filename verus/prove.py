"""The unbounded layer: Verus on the functions extracted from /repo.

    prove.py KIND DIR [--constructs]

KIND is maps or sets; builds in DIR and prints a summary. With --constructs the
operators and calls of each function are recorded: a failure of a function which
uses others is not taken as an alarm, because its proof may only need a hint.
"""
import json
import os
import re
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
import shapes  # noqa: E402

FILES = {
    "maps": ["option_bucket=option_bucket.rs", "map=<map.rs", "entry=map/entry.rs", "storage=<map/storage.rs",
             "boolean=map/storage/boolean.rs", "singleton=map/storage/singleton.rs", "option=map/storage/option.rs",
             "hashbrown=map/storage/hashbrown.rs",
             "storage=", "map=", "key=key.rs"],
    "sets": ["set=<set.rs", "intersection=set/intersection.rs", "storage=<set/storage.rs", "boolean=set/storage/boolean.rs",
             "singleton=set/storage/singleton.rs", "option=set/storage/option.rs",
             "hashbrown=set/storage/hashbrown.rs", "storage=", "set=",
             "raw=raw.rs", "key=key.rs"],
}


def sources(kind):
    out = []
    for f in FILES[kind]:
        name, file = f.split("=", 1)
        nested = "<" if file.startswith("<") else ""
        file = file.lstrip("<")
        out.append("%s=%s%s" % (name, nested, os.path.join(REPO, "src", file) if file else ""))
    return out


class Cut(Exception):
    pass


class Prover:
    def __init__(self, kind, build, deadline):
        self.kind, self.build, self.deadline = kind, build, deadline
        self.commands = []
        os.makedirs(build, exist_ok=True)

    def sh(self, cmd, cwd, out=None, err=None):
        left = self.deadline - time.time()
        if left < 5:
            raise Cut("no time left")
        env = dict(os.environ, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        env.pop("CARGO_TARGET_DIR", None)
        with open(out or os.devnull, "w") as o, open(err or os.path.join(self.build, "err"), "w") as e:
            p = subprocess.Popen(cmd, cwd=cwd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, env=env,
                                 start_new_session=True)
            try:
                return p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                raise Cut("%s did not finish in time" % cmd[0])
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()

    def tool(self):
        t = os.path.join(self.build, "tool")
        code = self.sh(["cargo", "build", "--offline", "--release", "--target-dir", t], os.path.join(HERE, "extract"))
        if code != 0:
            raise Cut("the extraction tool does not build: " + open(os.path.join(self.build, "err")).read()[-500:])
        return os.path.join(t, "release", "fm-extract")

    def expanded(self):
        """What the derive of /repo makes of the key types."""
        out = os.path.join(self.build, "expanded.rs")
        target = os.path.join(self.build, "target")
        crate = os.path.join(HERE, "shapes")
        # The expansion is printed by a run of the compiler, so that one is forced.
        os.makedirs(target, exist_ok=True)
        code = self.sh(["cargo", "+nightly", "rustc", "--offline", "--profile", "check", "--target-dir", target,
                        "--", "-Zunpretty=expanded"], crate, out)
        if code != 0 or os.path.getsize(out) < 1000:
            self.sh(["cargo", "+nightly", "clean", "--offline", "-p", "shapes", "--target-dir", target], crate)
            code = self.sh(["cargo", "+nightly", "rustc", "--offline", "--profile", "check", "--target-dir", target,
                            "--", "-Zunpretty=expanded"], crate, out)
        if code != 0 or os.path.getsize(out) < 1000:
            raise Cut("the key types do not expand: " + open(os.path.join(self.build, "err")).read()[-500:])
        return out

    def functions(self, index):
        out = []
        for line in open(index):
            a, b, path, spec, body, opaque, calls, operators = line.rstrip("\n").split("\t")
            out.append(dict(start=int(a), end=int(b), path=path, spec=spec == "1", body=body == "1",
                            opaque=opaque == "1", calls=[c for c in calls.split(",") if c], operators=operators.split()))
        return out

    def constructs(self):
        with open(os.path.join(HERE, "constructs-%s.json" % self.kind)) as f:
            return json.load(f)

    def main(self):
        tool = self.tool()
        expanded = self.expanded()
        spec = shapes.specification(self.kind)
        left_out = {}
        code = os.path.join(self.build, self.kind + ".rs")
        for _ in range(12):
            text = spec + "\n@ trusted\n" + "\n".join(left_out) + "\n"
            path = os.path.join(self.build, self.kind + ".vrs")
            with open(path, "w") as f:
                f.write(text)
            err = os.path.join(self.build, "extract.err")
            if self.sh([tool, path, code] + sources(self.kind) + ["shapes!=" + expanded], HERE, err=err) != 0:
                raise Cut("extraction failed: " + open(err).read()[-500:])
            lost = [l.split(": ", 1)[1].strip() for l in open(err) if l.startswith("lost anchor")]
            fns = self.functions(code + ".index")
            out = os.path.join(self.build, self.kind + ".json")
            err = os.path.join(self.build, self.kind + ".err")
            cmd = ["verus", "--triggers-mode", "silent", "--rlimit", "60", "--multiple-errors", "3", "--output-json",
                   "--time-expanded", "--error-format=json", os.path.basename(code)]
            self.commands = [" ".join(cmd)]
            self.sh(cmd, self.build, out, err)
            messages = []
            for line in open(err, errors="replace"):
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("level") == "error" and not m["message"].startswith("aborting"):
                    messages.append(m)
            try:
                with open(out) as f:
                    data = json.load(f)
            except ValueError:
                raise Cut("Verus crashed: " + open(err, errors="replace").read()[-500:])
            results = data.get("verification-results") or {}
            if "verified" in results and not results.get("encountered-vir-error") and (
                    results["verified"] + results["errors"] > 0):
                self.trusted = {l for part in re.findall(r"^@ trusted\n((?:[^@\n].*\n|\n)*)", spec, re.M) for l in part.split("\n") if l}
                return self.report(data, messages, fns, left_out, lost, code)
            # The front end does not accept some function: leave it out.
            more = {}
            for m in messages:
                for s in m["spans"]:
                    if s["is_primary"]:
                        f = self.at(fns, s["line_start"])
                        if f and f["body"] and f["path"] not in left_out:
                            more[f["path"]] = m["message"].split(" (note")[0][:200]
            if not more:
                raise Cut("Verus does not accept the source: " + "; ".join(m["message"][:200] for m in messages[:3]))
            left_out.update(more)
        raise Cut("too much of the source is not accepted by Verus: " + ", ".join(left_out))

    @staticmethod
    def at(fns, line):
        # Declarations of traits end where their first function starts.
        return next((f for f in fns if f["start"] <= line < f["end"]), None)

    def report(self, data, messages, fns, left_out, lost, code):
        lines = open(code).read().split("\n")
        # Functions which carry a contract, by name.
        with_contract = {f["path"].split("::")[-1] for f in fns if f["spec"] and f["path"] not in left_out}
        plain = {f["path"].split("::")[-1] for f in fns if not f["spec"]} - with_contract
        trusted = {"insert"}  # NoneBucket::insert has its contract.
        failed = []
        for m in messages:
            primary = [s for s in m["spans"] if s["is_primary"]] or m["spans"]
            f = None
            for s in primary + m["spans"]:
                g = self.at(fns, s["line_start"])
                if g and g["body"]:
                    f = g
                    break
            text = [" ".join(l.strip() for l in lines[s["line_start"] - 1:s["line_end"]])[:300] for s in m["spans"]]
            definite = m["message"] in (
                "postcondition not satisfied", "precondition not satisfied", "assertion failed",
                "possible arithmetic underflow/overflow") and f is not None and not f["opaque"]
            if f is not None and definite:
                # What it calls has to have contracts, or its failure says nothing.
                unknown = [c for c in f["calls"] if c in plain and c not in trusted]
                reached = [c for c in f["calls"] if any(p.split("::")[-1] == c for p in left_out)]
                # And it has to be written in what its contract is known to be provable for.
                known = self.constructs().get(f["path"], [])
                new = [c for c in f["calls"] + f["operators"] if c not in known]
                definite = not unknown and not reached and not new
            failed.append(dict(function=f["path"] if f else None, message=m["message"], clause=text, definite=definite))
        for f in failed:
            # A lemma of the contracts, not a function of the code.
            if f["function"] is None:
                f["definite"] = False
        if lost:
            for f in failed:
                f["definite"] = f["definite"] and not any(l.startswith(("impl", "where", "mod", "emit", "trait")) for l in lost)
        trusted_ = {f["path"] for f in fns if f["path"] in self.trusted}
        details = []
        for mod in data["times-ms"]["smt"]["smt-run-module-times"]:
            for fn in mod.get("function-breakdown", []):
                details.append(dict(function=fn["function"].split("::", 1)[-1], mode=fn.get("mode:") or fn.get("mode"),
                                    ms=round(fn["time-micros"] / 1000, 1), ok=fn["success"]))
        r = data["verification-results"]
        return dict(kind=self.kind, verified=r["verified"], errors=r["errors"], failed=failed,
                    left_out=left_out, lost=lost, details=details,
                    functions=[f["path"] for f in fns if f["body"] and f["path"] not in left_out and f["path"] not in trusted_],
                    trusted=sorted(trusted_),
                    constructs={f["path"]: sorted(f["calls"] + f["operators"]) for f in fns if f["body"]},
                    smt_ms=data["times-ms"]["smt"]["total"], commands=self.commands, code=code)


PROPERTIES = {"C01": ["maps"], "C02": ["sets"], "C03": ["maps", "sets"], "C04": ["maps"], "C05": ["sets"],
              "C06": ["maps", "sets"], "C07": ["maps", "sets"], "C08": ["maps"], "C09": ["maps"], "C12": ["sets"],
              "C13": ["sets"], "C14": ["maps", "sets"], "C15": ["maps", "sets"], "C16": ["maps", "sets"]}

POINT = {"insert", "remove", "get", "get_mut", "contains_key", "contains", "clear", "empty", "new", "default",
         "to_bits", "test"}
SEQUENCE = {"iter", "keys", "values", "iter_mut", "values_mut", "into_iter", "next"}


def concerns(prop, kind, path, clause=""):
    """Whether a function under contract is one the property depends on."""
    name = path.split("::")[-1]
    entry = "Entry" in path or "option_bucket" in path or name in ("entry", "option_to_entry") \
        or re.search(r"::(Vacant|Occupied) as", path) is not None
    if prop in ("C01", "C02"):
        return not entry and name in POINT and "count" not in clause
    if prop == "C03":
        return not entry and name in ("len", "is_empty") or "count" in clause
    if prop in ("C04", "C05"):
        return name in SEQUENCE
    if prop == "C06":
        return name in ("next", "next_back", "size_hint") or name == "len" and "Iterator" in path
    if prop == "C08":
        return entry
    if prop == "C09":
        return entry and ("option_bucket" in path or name == "option_to_entry")
    if prop == "C07":
        return name == "retain"
    if prop == "C12":
        return "of_B" in path or name in ("as_raw", "from_raw")
    if prop == "C13":
        return "ntersection" in path or kind == "sets" and name in ("contains", "len", "iter")
    if prop == "C14":
        return name in ("from_iter", "from", "default", "new") and ("map::Map" in path or "set::Set" in path)
    if prop == "C15":
        return name in ("serialize", "visit_map", "visit_seq")
    if prop == "C16":
        return "hashbrown" in path
    return False


def prove(prop, build, deadline):
    """The reports of a property, one for each kind of container it is about."""
    out = []
    for kind in PROPERTIES.get(prop, []):
        try:
            r = Prover(kind, os.path.join(build, "verus"), deadline).main()
        except Cut as e:
            out.append(dict(kind=kind, cut=str(e)))
            continue
        except Exception as e:  # The layer must not take the check down.
            out.append(dict(kind=kind, cut="%s: %s" % (type(e).__name__, e)))
            continue
        r["mine"] = [f for f in r["functions"] if concerns(prop, kind, f)]
        r["alarms"] = [f for f in r["failed"] if f["function"] and concerns(prop, kind, f["function"], " ".join(f["clause"]))]
        out.append(r)
    return out


if __name__ == "__main__":
    kind, build = sys.argv[1:3]
    t = time.time()
    r = Prover(kind, build, t + 600).main()
    print(json.dumps({k: v for k, v in r.items() if k not in ("details", "functions", "constructs")}, indent=1))
    print("%d functions, %.1f s" % (len(r["functions"]), time.time() - t))
    if "--constructs" in sys.argv:
        # What the functions are written in, on a tree which is verified.
        with open(os.path.join(HERE, "constructs-%s.json" % kind), "w") as f:
            json.dump(r["constructs"], f, indent=0, sort_keys=True)
