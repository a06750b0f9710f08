#!/usr/bin/env python3
"""check.py <property> : decide one property by bounded symbolic execution (Kani/CBMC + SAT).

The sources in /repo/src are compiled by Kani together with the harnesses of that property on every
run.  A failed assertion is turned into a concrete input, which is replayed natively against the
real crate with its real dependencies; only what reproduces there is reported.

exit 0: held within the bounds   exit 1: VIOLATION   exit 2: no verdict
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
sys.path.insert(0, ROOT)
from checks import CHECKS, MODEL_TRUST  # noqa: E402

T0 = time.time()
LIMIT = float(os.environ.get("CHECK_LIMIT", "860"))
OFFLINE = {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": ""}


def left():
    return LIMIT - (time.time() - T0)


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd, env=None, timeout=None, out=None):
    """Run a command in its own process group; kill the group on timeout."""
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(OFFLINE)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        rc = 124
    if out:
        with open(out, "w") as f:
            f.write(o)
    return rc, o


# ---------------------------------------------------------------- kani

def fresh(target):
    """cargo decides by mtime: forget what it knows about goggles and the harnesses."""
    for pat in ("goggles-*", "harness-*", "replay-*", "replay_overlay-*"):
        for d in glob.glob(os.path.join(target, "**", ".fingerprint", pat), recursive=True):
            shutil.rmtree(d, ignore_errors=True)


CFGS = ""  # extra rustc cfgs of this check (hooks)
FEATURES = ()  # variants of the models
STUBS = False  # harnesses of this check replace a function of core


def kani(names, jobs, extra=(), timeout=None, tag="run", opts=()):
    target = os.path.join(BUILD, "kani")
    js = os.path.join(BUILD, "kani-%s.json" % tag)
    if os.path.exists(js):
        os.remove(js)
    cmd = ["cargo", "kani", "--target-dir", target, "--exact", "-Z", "unstable-options",
           "--no-assertion-reach-checks"]
    for n in names:
        cmd += ["--harness", n]
    if FEATURES:
        cmd += ["--features", ",".join(FEATURES)]
    if STUBS:
        cmd += ["-Z", "stubbing"]
    cmd += list(opts)
    if jobs > 1:
        cmd += ["-j", str(jobs), "--output-format=terse"]
    if timeout:
        cmd += ["--harness-timeout", "%ds" % max(30, int(timeout))]
    cmd += ["--export-json", js] if not extra else list(extra)
    rc, out = sh(cmd, os.path.join(ROOT, "harness"),
                 {"RUSTFLAGS": "--cfg overlay" + CFGS}, timeout=max(60, left() - 15),
                 out=os.path.join(BUILD, "kani-%s.log" % tag))
    data = None
    if os.path.exists(js):
        with open(js) as f:
            data = json.load(f)
    return rc, out, data


def desc(d):
    """`concat! ("PROP: ", "x")` -> PROP: x"""
    m = re.match(r'concat! ?\((.*)\)$', d.strip())
    if m:
        return "".join(json.loads('"%s"' % s) for s in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1)))
    return d.strip().strip('"')


# "CUT:" marks executions of the scheduling model that are no interleavings.
NOVERDICT = ("BOUND:", "unwinding assertion", "recursion unwinding")


def classify(check, mode, overflow=False):
    """'' (irrelevant), 'fail' (candidate violation) or 'bound' (left the stated bounds)."""
    d = desc(check["description"])
    cat = check.get("category", "")
    if "CUT:" in d:
        return ""
    if "BOUND:" in d or "unwind" in cat or any(d.startswith(x) for x in NOVERDICT):
        return "bound"
    if cat == "unsupported_construct":
        return "bound"
    if mode == "proponly":
        # an overflow in goggles panics in debug builds only
        wraps = overflow and "overflow" in d and check.get("location", {}).get("file", "").startswith(REPO + "/src")
        return "fail" if "PROP:" in d or wraps else ""
    return "fail"


# ---------------------------------------------------------------- native replay

_native = {}
NEAR = ({}, {"VERIF_NEAR": "1"})


def native(kind="debug"):
    """Build the replay binary; returns its path or None.  `debug` and `release` use the real crate
    and its real dependencies, `overlay` the real source of goggles with the models (schedules)."""
    if kind in _native:
        return _native[kind]
    crate = "replay_overlay" if kind == "overlay" else "replay"
    target = os.path.join(BUILD, crate)
    fresh(target)
    cmd = ["cargo", "build", "--offline", "--target-dir", target]
    if kind == "release":
        cmd.append("--release")
    env = {"RUSTUP_TOOLCHAIN": "stable", "RUSTFLAGS": (("--cfg overlay" if kind == "overlay" else "") + CFGS).strip()}
    if not env["RUSTFLAGS"]:
        del env["RUSTFLAGS"]
    rc, out = sh(cmd, os.path.join(ROOT, crate), env,
                 timeout=max(60, left() - 5), out=os.path.join(BUILD, "replay-%s.log" % kind))
    path = os.path.join(target, "release" if kind == "release" else "debug", "replay")
    _native[kind] = path if rc == 0 else None
    return _native[kind]


def fence():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def attempt(binary, name, mode, hexin, timeout=120, near=False):
    try:
        p = subprocess.run([binary, "replay", name, mode, hexin], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, preexec_fn=fence, env=dict(os.environ, **NEAR[near]))
    except subprocess.TimeoutExpired:
        return False, "timeout"
    lines = [l for l in p.stdout.splitlines() if l.startswith(("REPRODUCED", "NOT-REPRODUCED", "INFEASIBLE"))]
    if p.returncode < 0:
        tail = p.stdout.strip().splitlines()[-1:] or [""]
        # an abort (std's own check of an unsafe precondition, a double panic, a fault) in a
        # harness that may not fail
        return mode == "strict", "killed by signal %d: %s" % (-p.returncode, tail[0])
    if lines:
        return lines[-1].startswith("REPRODUCED"), lines[-1]
    return False, "exit %d: %s" % (p.returncode, p.stdout[-300:])


def miri(name, mode, hexin, near=False):
    target = os.path.join(BUILD, "miri")
    env = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks",
           "RUSTUP_TOOLCHAIN": "nightly", "REPLAY_TRIES": "1", **NEAR[near]}
    rc, out = sh(["cargo", "miri", "run", "--offline", "--target-dir", target, "--", "replay", name, mode, hexin],
                 os.path.join(ROOT, "replay"), env, timeout=max(30, min(400, left() - 5)),
                 out=os.path.join(BUILD, "miri-%s.log" % name))
    m = re.search(r"error: Undefined Behavior: (.*)", out)
    if m:
        return True, "Miri: Undefined Behavior: " + m.group(1)
    m = re.search(r"^REPRODUCED.*$", out, re.M)
    if m:
        return True, "Miri: " + m.group(0)
    return False, "Miri: no error (%s)" % out.strip().splitlines()[-1:]


def reproduce(h, hexin, want_miri):
    notes = []
    name, mode = h["name"], h.get("mode", "strict")
    for profile in h.get("replay", ("debug", "release")):
        b = native(profile)
        if not b:
            notes.append("%s replay build failed" % profile)
            continue
        ok, why = attempt(b, name, mode, hexin, near=h.get("near", False))
        notes.append("%s: %s" % (profile, why))
        if ok:
            return True, notes
        if "INFEASIBLE" in why and profile == "debug":
            return False, notes
    if want_miri and mode == "strict" and left() > 60 and "overlay" not in h.get("replay", ()):
        ok, why = miri(name, mode, hexin, h.get("near", False))
        notes.append(why)
        if ok:
            return True, notes
    return False, notes


def playback(full, tag, opts=()):
    """Concrete inputs for the failed checks of one harness: [(description, hex)]."""
    rc, out, _ = kani([full], 1, ("-Z", "concrete-playback", "--concrete-playback=print"), tag="playback-" + tag, opts=opts)
    res = []
    # one block per failed check or satisfied cover
    for m in re.finditer(r"/// Test generated for harness.*?(?=/// Test generated for harness|\Z)", out, re.S):
        blk = m.group(0)
        d = re.search(r'/// Check for `([^`]*)`: "(.*?)"\s*\n', blk, re.S)
        vec = re.findall(r"^\s*vec!\[([0-9, ]*)\],?\s*$", blk, re.M)
        by = []
        for v in vec:
            by += [int(x) for x in v.split(",") if x.strip()]
        res.append(((d.group(1) + ": " + d.group(2)) if d else "?", "".join("%02x" % b for b in by)))
    return res, out


# ---------------------------------------------------------------- main

def unwinds():
    """The loop bound of every harness."""
    res = {}
    for f in glob.glob(os.path.join(ROOT, "harness", "src", "*.rs")):
        with open(f) as g:
            res.update((m.group(1), int(m.group(2))) for m in re.finditer(r"^\s*(c\d\d_\w+) \[(\d+)\] =>", g.read(), re.M))
    return res


class Run:
    """What the solver said, over all harnesses of a check."""

    def __init__(self):
        self.rows, self.unknown, self.functions = {}, {}, {}
        self.refuted = set()  # harnesses with a counterexample that does not reproduce natively
        self.tot = {"obligations": 0, "discharged": 0, "vccs": 0, "steps": 0, "solver": 0.0, "symex": 0.0}
        self.violation = None

    def undecided(self, h, why):
        self.rows[h["name"]]["verdict"] = "unknown"
        self.unknown[h["name"]] = "%s: %s" % (h["name"], why)

    def judge(self, full, data):
        """Reads one run of Kani; returns the harnesses with failed assertions."""
        candidates, tot = [], self.tot
        data = data or {}
        results = {r["harness_id"]: r for r in (data.get("verification_results") or {}).get("results", [])}
        cb = {c["harness_id"]: c for c in data.get("cbmc", [])}
        pd = {c["harness_id"]: c["property_details"] for c in data.get("property_details", []) if isinstance(c, dict) and "property_details" in c}
        for fid, h in full.items():
            r = results.get(fid)
            st = (cb.get(fid) or {}).get("cbmc_stats") or {}
            det = pd.get(fid) or {}
            mode = h.get("mode", "strict")
            row = {"harness": h["name"], "what": h["what"], "bounds": h["bounds"] + (REDUCED if h.get("near") else ""), "mode": mode}
            if r is None or not r.get("checks"):
                self.rows.setdefault(h["name"], row)
                self.undecided(h, "no result (timeout or engine error)")
                continue
            self.rows[h["name"]] = row
            fails, bounds, end = [], [], None
            for c in r["checks"]:
                f = c.get("location", {}).get("file", "")
                if f.startswith(REPO + "/src"):
                    self.functions.setdefault(c["function"], os.path.relpath(f, REPO))
                if c.get("category") == "cover":
                    if desc(c["description"]).endswith(h.get("reach", "END")) and str(end).lower() != "satisfied":
                        end = c["status"]
                    continue
                tot["obligations"] += 1
                if c["status"] in ("Success", "Unreachable"):
                    tot["discharged"] += 1
                elif c["status"] == "Failure":
                    k = classify(c, mode, h.get("overflow"))
                    if k == "fail":
                        fails.append(c)
                    elif k == "bound":
                        bounds.append(c)
                    else:
                        tot["discharged"] += 1
            tot["vccs"] += st.get("vccs_remaining", 0) or 0
            tot["steps"] += st.get("size_program_expression", 0) or 0
            tot["solver"] += st.get("runtime_solver_s", 0) or 0
            tot["symex"] += st.get("runtime_symex_s", 0) or 0
            row.update(solver_s=st.get("runtime_solver_s"), symex_s=st.get("runtime_symex_s"),
                       vccs=st.get("vccs_remaining"), ssa_steps=st.get("size_program_expression"),
                       checks=det.get("total_properties"), duration_ms=r.get("duration_ms"))
            if fails:
                candidates.append((r.get("duration_ms") or 0, fid, h, fails))
                row["verdict"] = "counterexample"
            elif bounds:
                self.undecided(h, "left the bounds: %s" % sorted({desc(c["description"]) + " @ " + str(c.get("location", {}).get("file", "")) + ":" + str(c.get("location", {}).get("line", "")) for c in bounds})[:4])
            elif r["status"] not in ("Success",) and mode == "strict":
                self.undecided(h, "status %s without a failed check" % r["status"])
            elif str(end).lower() != "satisfied":
                self.undecided(h, "end of the harness not reachable (%s)" % end)
            else:
                row["verdict"] = "holds" + (" (reduced bounds)" if h.get("near") else "")
                self.unknown.pop(h["name"], None)
                self.refuted.discard(h["name"])
        return candidates

    def replay(self, prop, candidates, opts=()):
        """Counterexamples: concretise, replay."""
        for _, fid, h, fails in sorted(candidates, key=lambda x: x[0]):
            if self.violation or left() < 40:
                self.refuted.add(h["name"])
                self.unknown.setdefault(h["name"], "%s: counterexample not replayed" % h["name"])
                continue
            mode = h.get("mode", "strict")
            for c in fails[:8]:
                log("  candidate %s: [%s] %s (%s:%s)" % (h["name"], c.get("category"), desc(c["description"]),
                    c.get("location", {}).get("file"), c.get("location", {}).get("line")))
            cands, pout = playback(fid, h["name"], opts)
            seen = set()

            def rank(x):
                return (0 if "PROP" in x[0] else 2 if "cover" in x[0] else 1)
            all_notes = []
            for d, hexin in sorted(cands, key=rank):
                if hexin in seen or "BOUND:" in d or not hexin:
                    continue
                # (Kani prints an input once: that of a failed check may be listed under a cover)
                seen.add(hexin)
                ok, notes = reproduce(h, hexin, "PROP" not in d)
                all_notes.append((d, hexin, notes))
                if ok:
                    if "cover" in d:
                        d = "; ".join(desc(c["description"]) for c in fails[:3])
                    os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
                    path = os.path.join(BUILD, "replays", "%s-%s.txt" % (prop, h["name"]))
                    with open(path, "w") as f:
                        f.write("property %s\nharness  %s (harness/src/%s.rs)\nfailed   %s\ninput    %s\n" % (prop, h["name"], h["name"].split("_")[0], d, hexin))
                        f.write("\n".join(notes) + "\n")
                        over = notes[-1].startswith("overlay")
                        f.write("re-run   cd /verif/%s && %s%scargo run --offline --target-dir /verif/.build/%s -- replay %s %s %s\n" % (
                            "replay_overlay" if over else "replay", "VERIF_NEAR=1 " if h.get("near") else "",
                            "RUSTFLAGS='--cfg overlay' " if over else "", "replay_overlay" if over else "replay", h["name"], mode, hexin))
                    self.violation = (h["name"], d, notes, path)
                    break
                if left() < 40:
                    break
            if not self.violation:
                if h.get("peek"):
                    # the callback looked into the storage through a raw pointer, which safe code
                    # cannot do; what counts is the state after a real unwind, and that was fine
                    self.rows[h["name"]]["verdict"] = "not observable natively"
                    continue
                self.refuted.add(h["name"])
                self.unknown[h["name"]] = "%s: counterexample does not reproduce natively: %s" % (h["name"], all_notes[:3] or pout[-500:])


REDUCED = "; reduced: indices below 4 only, more loop iterations"


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    spec = CHECKS[prop]
    if tier == "thorough":
        global LIMIT
        LIMIT = float(os.environ.get("CHECK_LIMIT", "7200"))
    hs = [h for h in spec["harnesses"] if tier == "thorough" or not h.get("thorough")]
    full = {"%s::proofs::%s" % (h["name"].split("_")[0], h["name"]): h for h in hs}
    fresh(os.path.join(BUILD, "kani"))
    ex = cf.ThreadPoolExecutor(4)
    global CFGS, FEATURES, STUBS
    STUBS = spec.get("stubs", False)
    FEATURES = tuple(spec.get("features", ()))
    CFGS = "".join(" --cfg " + c for c in spec.get("cfgs", ()))
    kinds = sorted({k for h in hs for k in h.get("replay", ("debug",)) if k != "release"})
    nat = ex.submit(lambda: [native(k) for k in kinds])
    timeout = 430 if tier == "quick" else 3000
    rc, out, data = kani(list(full), 8, timeout=timeout)
    nat.result()
    if data is None or not data.get("verification_results"):
        log(out[-3000:])
        log("NO-VERDICT property=%s: kani produced no result (rc=%s)" % (prop, rc))
        return 2, None
    run = Run()
    run.replay(prop, run.judge(full, data))
    if run.unknown and not run.violation and left() > 150:
        # the code left what the models or the loop bounds cover: decide those harnesses on a
        # smaller universe of indices, with more loop iterations
        for n in sorted(run.unknown.values()):
            log("  again, within reduced bounds: " + n[:300])
        again = {f: dict(h, near=True) for f, h in full.items() if h["name"] in run.unknown}
        u = unwinds()
        opts = ("--unwind", str(3 + max(u.get(h["name"], 5) for h in again.values())))
        FEATURES += ("near",)
        fresh(os.path.join(BUILD, "kani"))
        _, _, data = kani(list(again), 6, opts=opts, timeout=left() - 90, tag="again")
        run.replay(prop, run.judge(again, data), opts)
    rows, functions, tot, violation = list(run.rows.values()), run.functions, run.tot, run.violation
    unknown, disagree = [run.unknown[n] for n in sorted(run.unknown)], []

    # the same harnesses, natively, on sampled inputs: cross-check of the models (never decides)
    traces = 0
    sampled = {}
    if not violation and all(native(k) for k in kinds):
        for h in hs:
            kind = h.get("replay", ("debug",))[0]
            if kind == "release" or h.get("nosample"):
                continue
            try:
                p = subprocess.run([native(kind), "sample", h["name"], h.get("mode", "strict"), "400", str(seed)],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   errors="replace", timeout=60, preexec_fn=fence)
                m = re.search(r"SAMPLED ok=(\d+)", p.stdout)
                if m:
                    traces += int(m.group(1))
                    sampled[h["name"]] = int(m.group(1))
                else:
                    disagree.append("%s: the model-level result and a native run disagree: %s" % (h["name"], p.stdout[-400:]))
            except subprocess.TimeoutExpired:
                sampled[h["name"]] = None
    elif not violation:
        disagree.append("native build of the replay crate failed")

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["steps"],
            "transitions": tot["vccs"],
            "traces_validated_against_impl": traces,
            "states_transitions_meaning": "symbolic: states = SSA steps of the encoded program, transitions = verification conditions handed to the SAT solver, summed over harnesses",
            "obligations": tot["obligations"], "discharged": tot["discharged"],
            "queries_discharged": tot["discharged"],
            "solver_s": round(tot["solver"], 3), "symex_s": round(tot["symex"], 3),
            "functions_encoded": sorted("%s (%s)" % x for x in functions.items()),
            "harnesses": rows,
            "native_samples_per_harness": sampled,
            "bounds": sorted({h["bounds"] for h in hs}),
            "outside": spec.get("outside", ""),
            "not_explored": unknown,
            "checker_cmd": "cargo kani (CBMC 6.11, cadical), harness crate /verif/harness, goggles sources from /repo/src",
            "samples": rows[:3],
        },
        "assumptions": MODEL_TRUST + spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for row in rows:
        log("  %-28s %-16s solver %.1fs  checks %s" % (row["harness"], row.get("verdict"), row.get("solver_s") or 0, row.get("checks")))
    for u in unknown + disagree:
        log("  NOTE " + u)
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf)).get("findings", []):
            if k.get("property") == prop and k.get("status") == "open":
                log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violation:
        log("counterexample: %s: %s" % (violation[0], violation[1]))
        for n in violation[2]:
            log("   " + n)
        log("VIOLATION property=%s replay=%s" % (prop, violation[3]))
        return 1, ev
    decided = sum(1 for r in rows if r.get("verdict") not in ("unknown", "counterexample"))
    if disagree or run.refuted or 2 * decided < len(rows):
        log("NO-VERDICT property=%s" % prop)
        return 2, ev
    if unknown:
        log("HOLDS property=%s on everything explored (%.0fs); not explored: %s" % (prop, time.time() - T0, ", ".join(sorted(run.unknown))))
        return 0, ev
    log("HOLDS property=%s within the stated bounds (%.0fs)" % (prop, time.time() - T0))
    return 0, ev


if __name__ == "__main__":
    sys.exit(main()[0])
