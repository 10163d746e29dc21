#!/usr/bin/env python3
"""check.py PID: decide one property on the current tree of /repo.

1. Extract the functions under contract from /repo/src (vx) into a Verus file
   and let Verus discharge every obligation. This is the deciding step.
2. Run the bounded layer (harness), which searches for a concrete failing input
   and stands in, labelled bounded, for functions step 1 cannot decide.
Exit 0: held. Exit 1: a line "VIOLATION property=.. replay=..".
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OUT = os.path.join(HERE, "out")
VX = os.path.join(HERE, "vx/target/release/vx")
HARNESS = os.path.join(HERE, "harness/target/release/harness")
VERUS_TIMEOUT = 240

sys.path.insert(0, HERE)
from units import PROPS  # noqa: E402

# Failed obligations that concern a contract, as opposed to a proof detail.
CONTRACT = ("postcondition not satisfied", "precondition not satisfied",
            "possible arithmetic underflow/overflow", "possible division by zero",
            "failed this postcondition", "index out of bounds", "constructed value may fail")
DETAIL = ("invariant not satisfied", "assertion failed", "decreases not satisfied",
          "assert_by", "loop invariant", "could not prove termination")
LIMIT = ("Resource limit", "rlimit", "timed out", "timeout", "failed to find")


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("check error: " + msg)
    sys.exit(3)


def cargo(path, what):
    env = dict(os.environ)
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"],
                       cwd=path, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die(f"cannot build {what}:\n{p.stdout[-3000:]}")


def build():
    cargo(os.path.join(HERE, "vx"), "the extractor")
    cargo(os.path.join(HERE, "harness"), "the bounded layer against /repo")


class Unit:
    """One Verus file."""

    def __init__(self, name, tag):
        self.name = name
        self.dir = os.path.join(OUT, tag)
        os.makedirs(self.dir, exist_ok=True)
        self.rs = os.path.join(self.dir, name + ".rs")
        self.map = os.path.join(self.dir, name + ".json")
        self.items = []
        self.undecided = []   # (item, reason)
        self.failed = []      # (item, message, detail?, rendered)
        self.verified = 0
        self.errors = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.functions = []
        self.vacuous = []
        self.dead = None      # whole unit undecided

    def extract(self, assume, vacuity=False, rs=None, mp=None):
        env = dict(os.environ)
        env["VX_ASSUME"] = ";".join(sorted(assume))
        env.pop("VX_VACUITY", None)
        if vacuity:
            env["VX_VACUITY"] = "1"
        p = subprocess.run([VX, SRC, os.path.join(HERE, "proofs", self.name + ".vt"),
                            rs or self.rs, mp or self.map], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return p.stdout.strip()[-500:]
        return None

    def verus(self, rs, limits=("--rlimit", "150", "--multiple-errors", "10")):
        t = time.time()
        cmd = ["verus", rs, "--output-json", "--time-expanded", "--triggers-mode", "silent",
               *limits, "--num-threads", "8", "--error-format=json"]
        self.cmd = " ".join(cmd)
        try:
            p = subprocess.run(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=VERUS_TIMEOUT)
        except subprocess.TimeoutExpired:
            return None, []
        self.wall += time.time() - t
        try:
            j = json.loads(p.stdout)
        except ValueError:
            j = {}
        diags = []
        for line in p.stderr.splitlines():
            line = line.strip()
            if line.startswith("{"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    diags.append(d)
        return j, diags

    def item_at(self, line, kinds=("fn",)):
        best = None
        for e in self.items:
            if e["kind"] in kinds and e["start"] <= line <= e["end"]:
                if best is None or e["end"] - e["start"] < best["end"] - best["start"]:
                    best = e
        return best

    def locate(self, d):
        """The extracted item a diagnostic is about."""
        spans = list(d.get("spans", []))
        for c in d.get("children", []):
            spans += c.get("spans", [])
        msg = d.get("message", "")
        if "postcondition" in msg:
            spans.sort(key=lambda s: (not ("at the end" in (s.get("label") or "") or "exit" in (s.get("label") or "")),
                                      not s.get("is_primary")))
        else:
            spans.sort(key=lambda s: not s.get("is_primary"))
        for s in spans:
            if os.path.basename(s.get("file_name", "")) != os.path.basename(self.rs):
                continue
            e = self.item_at(s["line_start"])
            if e:
                return e
        return None

    def run(self):
        assume = set()
        for attempt in range(12):
            self.failed = []
            err = self.extract(assume)
            if err:
                self.dead = "extraction: " + err
                return
            self.items = json.load(open(self.map))
            lost = [e for e in self.items if e["errors"]]
            fresh = False
            for e in lost:
                if e["kind"] == "type":
                    self.dead = "; ".join(e["errors"])
                    return
                if e["item"] in assume or e["src_line"] == 0:
                    self.dead = f"{e['item']}: " + "; ".join(e["errors"])
                    return
                assume.add(e["item"])
                self.undecided.append((e["item"], "; ".join(e["errors"])))
                fresh = True
            if fresh:
                continue
            j, diags = self.verus(self.rs)
            if j is None:
                self.dead = f"Verus exceeded {VERUS_TIMEOUT} s"
                return
            res = j.get("verification-results", {})
            if res.get("encountered-vir-error") or "verified" not in res or any(d.get("code") for d in diags) \
                    or (diags and not res.get("errors")):
                # Outside of the verifier's language: the item is not decided.
                hit = False
                msgs = []
                for d in diags:
                    if d["message"].startswith("aborting due to"):
                        continue
                    msgs.append(d["message"])
                    e = self.locate(d)
                    if e and e["item"] not in assume:
                        assume.add(e["item"])
                        self.undecided.append((e["item"], "not accepted by the verifier: " + d["message"][:200]))
                        hit = True
                if not hit:
                    self.dead = "not accepted by the verifier: " + "; ".join(msgs)[:500]
                    return
                continue
            self.verified = res.get("verified", 0)
            self.errors = res.get("errors", 0)
            self.functions = []
            self.smt_ms = 0
            tm = j.get("times-ms", {}).get("smt", {})
            self.smt_ms = tm.get("total", 0)
            for m in tm.get("smt-run-module-times", []):
                for f in m.get("function-breakdown", []):
                    self.functions.append(f)
            for d in diags:
                msg = d["message"]
                if msg.startswith("aborting due to"):
                    continue
                e = self.locate(d)
                name = e["item"] if e else "(lemma)"
                if any(x in msg for x in LIMIT):
                    self.undecided.append((name, msg))
                elif e is None:
                    # Lemmas speak about the specification only.
                    self.failed.append((name, msg, True, d.get("rendered", "")))
                elif any(x in msg for x in CONTRACT):
                    self.failed.append((name, msg, False, d.get("rendered", "")))
                else:
                    self.failed.append((name, msg, True, d.get("rendered", "")))
            return
        self.dead = "no fixed point of undecided items"

    def vacuity(self):
        """Every exit of every function under contract must be reachable."""
        rs = self.rs[:-3] + "_vacuity.rs"
        mp = self.map[:-5] + "_vacuity.json"
        assume = {i for i, _ in self.undecided}
        if self.extract(assume, True, rs, mp):
            return 0, []
        j, diags = self.verus(rs, ["--rlimit", "2", "--multiple-errors", "0"])
        res = (j or {}).get("verification-results", {})
        if "verified" not in res or res.get("encountered-vir-error"):
            return 0, []
        items = [e for e in json.load(open(mp)) if e["kind"] == "fn" and not e["assumed"]
                 and e["item"] not in assume]
        hit = set()
        for d in diags:
            for s in d.get("spans", []):
                for e in items:
                    if e["start"] <= s["line_start"] <= e["end"]:
                        hit.add((e["item"], e["start"]))
        vacuous = [e["item"] for e in items if (e["item"], e["start"]) not in hit]
        return len(items), vacuous


def trusted(unit):
    """Mechanical scan for everything that is assumed in the generated file."""
    out = []
    if not os.path.exists(unit.rs):
        return out
    lines = open(unit.rs).read().split("\n")
    for e in unit.items:
        if e["proved_in"]:
            for k in range(e["start"] - 1, min(e["end"], len(lines))):
                lines[k] = lines[k].replace("external_body", "proved_elsewhere")
    text = "\n".join(lines)
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*)\]", text):
        out.append(f"assumed contract: {m.group(1).strip()}")
    for m in re.finditer(r"external_body\]\s*\n?\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?(?:fn|struct)\s+(\w+)", text):
        out.append(f"external body: {m.group(1)}")
    for m in re.finditer(r"uninterp spec fn (\w+)", text):
        out.append(f"uninterpreted: {m.group(1)}")
    for m in re.finditer(r"broadcast axiom fn (\w+)|axiom fn (\w+)", text):
        out.append(f"axiom: {m.group(1) or m.group(2)}")
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        out.append(f"{m.group(1)} at line {text[:m.start()].count(chr(10)) + 1}")
    return sorted(set(out))


def closure(units):
    """The units that prove the contracts which the given units only assume."""
    seen, out = set(units), []
    def files(f):
        for l in open(os.path.join(HERE, "proofs", f)):
            w = l.split()
            if w[:2] == ["//@", "include"]:
                yield from files(w[2])
            elif w[:2] == ["//@", "include-proved"]:
                yield w[2]
                yield from files(w[3])
    todo = list(units)
    while todo:
        for d in files(todo.pop() + ".vt"):
            if d not in seen:
                seen.add(d)
                out.append(d)
                todo.append(d)
    return sorted(out)


def known_findings(pid):
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def run_harness(pid, tier, seed, out):
    try:
        p = subprocess.run([HARNESS, "run", pid, "--tier", tier, "--seed", str(seed), "--src", SRC,
                            "--out", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=9000 if tier == "thorough" else 400)
    except subprocess.TimeoutExpired:
        die("the bounded layer did not finish")
    if p.returncode not in (0, 1) or not os.path.exists(out):
        die(f"the bounded layer failed ({p.returncode}): {p.stdout[-2000:]}")
    return json.load(open(out))


def main():
    pid = sys.argv[1]
    if pid == "--build":
        build()
        return
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if pid not in PROPS:
        die(f"unknown property {pid}")
    conf = PROPS[pid]
    start = time.time()
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    build()

    base_units = closure(conf["units"])
    units = [Unit(u, pid) for u in conf["units"] + base_units]
    hout = os.path.join(OUT, pid, "harness.json")
    with ThreadPoolExecutor(max_workers=8) as pool:
        # Units that only serve as a base have this looked at under their own property.
        vac = {u.name: pool.submit(Unit(u.name, pid).vacuity) for u in units if u.name not in base_units}
        runs = [pool.submit(u.run) for u in units]
        for r in runs:
            r.result()
        vac = {n: f.result() for n, f in vac.items()}
    h = run_harness(pid, tier, seed, hout)
    nvac = 0
    for u in units:
        if u.name in vac and not u.dead and u.errors == 0 and not u.undecided:
            u.nvac, u.vacuous = vac[u.name]
            nvac += u.nvac or 0
            for item in u.vacuous:
                if item not in conf.get("diverging", []):
                    u.undecided.append((item, "its exit is unreachable under the contracts"))

    failed = [(u.name,) + f for u in units for f in u.failed]
    undecided = [(u.name,) + x for u in units for x in u.undecided]
    undecided += [(u.name, "(whole unit)", u.dead) for u in units if u.dead]
    rounds = 1
    if (failed or undecided) and not h["failure"] and tier == "quick":
        # Something was not proved: search harder for a failing input.
        for k in range(1, 4):
            rounds += 1
            h2 = run_harness(pid, tier, seed + 1000 * k, hout)
            for key in ("evaluations", "distinct_nontrivial"):
                h2[key] += h[key]
            h = h2
            if h["failure"]:
                break

    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    functions = []
    for u in units:
        for e in u.items:
            if e["kind"] == "fn" and not e["proved_in"]:
                functions.append(f"{e['item']} ({e['file']}:{e['src_line']})"
                                 + (" assumed" if e["assumed"] else ""))
    functions = sorted(set(functions))
    notes = sorted({n for u in units for e in u.items for n in e["notes"]})
    base = sorted({t for u in units for t in trusted(u)}) + conf.get("assumes", [])
    violations = 0
    replay = os.path.join(OUT, "replay", pid + ".replay")
    line = None
    known = known_findings(pid)
    if h["failure"]:
        f = h["failure"]
        violations = 1
        with open(replay, "w") as fh:
            fh.write(f["replay"])
            fh.write(f"\n# case: {f['case']}\n# result: {f['message']}\n")
            fh.write(f"# replay: {HARNESS} replay {replay}\n")
            for x in failed:
                fh.write(f"# failed obligation in unit {x[0]}: {x[1]}: {x[2]}\n")
                for l in x[4].splitlines():
                    fh.write("#   " + l + "\n")
        log(f"failing input: {f['case']}\n  {f['message']}")
        line = f"VIOLATION property={pid} replay={replay}"
    else:
        hard = [x for x in failed if not x[3]]
        # A contract that fails next to a failed proof step of the same function
        # is not decided: the proof may merely not fit the code any more.
        soft_items = {(x[0], x[1]) for x in failed if x[3]}
        hard = [x for x in hard if (x[0], x[1]) not in soft_items]
        # The contract of a closure is a step of the proof of the function around it.
        hard = [x for x in hard if not x[1].endswith("(lifted closure)")]
        # A contract that fails in a unit this property only builds on leaves
        # it undecided; the property of that unit reports it.
        hard = [x for x in hard if x[0] not in base_units]
        for x in failed:
            if x not in hard:
                undecided.append((x[0], x[1], "proof step: " + x[2]))
        if hard:
            violations = 1
            with open(replay, "w") as fh:
                fh.write(f"property {pid}\n# no failing input found in {h['evaluations']} cases\n")
                for x in hard:
                    fh.write(f"# failed obligation in unit {x[0]}: {x[1]}: {x[2]}\n{x[4]}\n")
            line = f"VIOLATION property={pid} replay={replay} no-failing-input-found"
    for x in failed:
        log(f"failed obligation: unit {x[0]}, {x[1]}: {x[2]}")
    for x in undecided:
        log(f"undecided: unit {x[0]}, {x[1]}: {x[2]}")

    if obligations == 0 and not undecided and conf["units"]:
        die("no obligations were generated")

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obligations,
            "discharged": discharged,
            "checker_cmd": "; ".join(getattr(u, "cmd", "verus " + u.rs) for u in units),
            "trusted_base": base,
            "back_end": "Verus (Z3)",
            "solver_ms": sum(u.smt_ms for u in units),
            "verifier_wall_s": round(sum(u.wall for u in units), 2),
            "units": conf["units"],
            "units_built_on": base_units,
            "functions_under_contract": functions,
            "extraction_rewrites": notes,
            "reachability_checks": nvac,
            "failed_obligations": [f"{x[0]}: {x[1]}: {x[2]}" for x in failed],
            "undecided": [f"{x[0]}: {x[1]}: {x[2]}" for x in undecided],
            "bounded_layer": {
                "note": "bounded: a search for failing inputs on the real crate, never counted as proved",
                "rounds": rounds,
                "evaluations": h["evaluations"] + h["swept"],
                "distinct_nontrivial": h["distinct_nontrivial"],
                "rule": h["rule"],
                "sweep": h["sweep"], "swept": h["swept"], "sweep_complete": h["sweep_complete"],
                "timed_out": h["timed_out"],
                "samples": h["samples"],
            },
        },
        "assumptions": base + conf.get("bounded_parts", []),
        "wall_s": round(time.time() - start, 2),
        "violations": violations,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for k in known:
        log(f"KNOWN-FINDING: property={pid} {k}")
    log(f"{pid}: {discharged}/{obligations} obligations discharged, {len(functions)} functions under contract, "
        f"{len(undecided)} undecided; bounded layer: {h['evaluations'] + h['swept']} cases; {ev['wall_s']} s")
    if line:
        log(line)
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
