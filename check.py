#!/usr/bin/env python3
"""Driver of the checks.

  check.py build                      build the harness from /repo's working tree
  check.py run PROPERTY [TIER]        explore a property (TIER defaults to $VERIF_TIER or quick)
  check.py all [TIER]                 explore all of them, one after another
  check.py replay FILE                execute a recorded violation again

Exit code of run: 0 held on everything explored, 1 violation, 2 no verdict (build or harness error).
"""
import fcntl
import hashlib
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
MC = HERE / "mc"
REPO = Path("/repo")
TARGET = MC / "target"
BIN = TARGET / "release" / "qtmc"
KNOWN = HERE / "known_findings.txt"
EVIDENCE = HERE / "evidence"
REPLAYS = HERE / "replays"
AS_LIMIT = 14 << 30
TRACE_STALE = 60
ONE_TIMEOUT = 150

COMMON = [
    "The harness observes the crate through its public API only: insert/size/retrieve/iteration/Display/searches/distances.",
    "Bounds: the alphabets, lengths, configurations and frames listed under coverage.spaces; nothing is sampled.",
    "Coordinates are finite and small enough that their squares do not overflow, unless a space says otherwise.",
]
RULE = {
    "C01": "case: one history on a fresh tree; non-trivial: it contains at least one rejected insertion",
    "C02": "case: one history, iterated in every consuming style; non-trivial: the tree is divided",
    "C03": "case: one history, all cells compared; non-trivial: the tree is divided",
    "C04": "case: one retrieval; non-trivial: it returns some but not all of the data",
    "C05": "case: one retrieval; non-trivial: it returns some but not all of the data",
    "C06": "case: one find; non-trivial: the data are at different distances",
    "C07": "case: one find_r; non-trivial: the nearest datum is beyond the radius",
    "C08": "case: one knn or knn_r; non-trivial: k is smaller than the number of data",
    "C09": "case: one sorted iteration; non-trivial: the data are at different distances",
    "C10": "case: one spherical find or find_r; non-trivial: distances differ or nothing is in the radius",
    "C11": "case: one spherical knn, knn_r or sorted; non-trivial: k cuts or distances differ",
    "C12": "case: one pair of geometries, both orders and all wrappers; non-trivial: they are apart",
    "C13": "case: one pair of geometries, both orders and all wrappers; non-trivial: distance defined and not zero",
    "C14": "case: one comparator, box and enclosed geometry; non-trivial: the comparator is outside the box",
    "C15": "case: one search call in one setting; non-trivial: it fails or skips data",
    "C16": "case: two trees compared; non-trivial: they are built differently and are divided",
    "C17": "case: one step or query under one schedule; non-trivial: schedules that switch actor more than once",
    "C18": "case: one tree or query over one number type; non-trivial: the tree is divided",
    "C19": "case: one geometry, wrapper or conversion; non-trivial: as counted by the space",
    "C20": "case: one query on one tree; non-trivial: the tree is divided or distances differ",
}


def sources():
    out = [REPO / "Cargo.toml", REPO / "Cargo.lock", REPO / "build.rs"]
    for d in (REPO / "src", MC / "src", REPO / ".cargo"):
        if d.is_dir():
            out += sorted(p for p in d.rglob("*") if p.is_file())
    out += [MC / "Cargo.toml", MC / "Cargo.lock"]
    return [p for p in out if p.is_file()]


def digest():
    h = hashlib.sha256()
    for p in sources():
        h.update(str(p).encode() + b"\0")
        h.update(hashlib.sha256(p.read_bytes()).digest())
    return h.hexdigest()


def build():
    """Build the harness and the crate from the current contents of the tree, whatever the time stamps say."""
    TARGET.mkdir(parents=True, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=str(TARGET), CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    with open(TARGET / ".qtmc-lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = TARGET / ".qtmc-stamp"
        now = digest()
        if BIN.exists() and stamp.exists() and stamp.read_text() == now:
            return True
        if stamp.exists():
            stamp.unlink()
        subprocess.run(["cargo", "clean", "--offline", "--release", "-p", "quadtree", "-p", "qtmc"], cwd=MC, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=MC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not BIN.exists():
            print(r.stdout[-6000:])
            print("the harness does not build")
            return False
        if digest() == now:
            stamp.write_text(now)
        return True


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def known(prop):
    """Keys of listed, unrepaired findings of the property: {key: text}."""
    out = {}
    if KNOWN.exists():
        for l in KNOWN.read_text().splitlines():
            l = l.strip()
            if l.startswith("open: property=" + prop + " "):
                text, _, key = l.partition(" key=")
                out[key.strip()] = text[len("open: property=" + prop) :].strip()
    return out


def head():
    r = subprocess.run(["git", "-C", str(REPO), "rev-parse", "HEAD"], capture_output=True, text=True)
    return r.stdout.strip()


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.dir = Path(tempfile.mkdtemp(prefix="qtmc-"))
        self.start = time.time()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def one(self, space, chunk):
        """Execute a chunk alone, noting each case before it runs. Returns (what, detail, case)."""
        trace = self.dir / f"trace-{space}-{chunk}"
        out = self.dir / f"out-{space}-{chunk}"
        with open(out, "w") as f:
            p = subprocess.Popen([str(BIN), "one", self.prop, self.tier, str(space), str(chunk), str(trace)], stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits)
            t0 = time.time()
            last, since = b"", t0
            while p.poll() is None:
                time.sleep(0.05)
                now = time.time()
                cur = trace.read_bytes() if trace.exists() else b""
                if cur != last:
                    last, since = cur, now
                if now - since > TRACE_STALE or now - t0 > ONE_TIMEOUT:
                    p.kill()
                    p.wait()
                    case = last.decode(errors="replace")
                    if now - since > TRACE_STALE:
                        return "hang", f"does not terminate within {TRACE_STALE} s", case
                    return "slow", "still running", case
        case = trace.read_bytes().decode(errors="replace") if trace.exists() else ""
        text = out.read_text(errors="replace")
        if p.returncode == 0:
            return "held", "", case
        if p.returncode == 1:
            return "violation", text, case
        if p.returncode < 0:
            return "crash", f"killed by signal {-p.returncode}: {text.strip()[-400:]}", case
        return "harness", text, case


def replay_file(prop, tier, v):
    REPLAYS.mkdir(exist_ok=True)
    name = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]
    path = REPLAYS / f"{prop}-{tier}-{name}.json"
    doc = {"property": prop, "tier": tier, "repo_head": head(), **v, "replay": f"python3 {HERE}/check.py replay {path}"}
    path.write_text(json.dumps(doc, indent=1) + "\n")
    return path


def report(prop, tier, v):
    path = replay_file(prop, tier, v)
    print(f"space: {v['space']}")
    print(f"what happened: {v['msg']}"[:3000])
    print(f"case: {v['case']}"[:3000])
    print(f"VIOLATION property={prop} replay={path}")


def run(prop, tier):
    if prop not in RULE:
        print("no such property: " + prop)
        return 2
    t0 = time.time()
    EVIDENCE.mkdir(exist_ok=True)
    if not build():
        return 2
    built = time.time() - t0
    r = Run(prop, tier)
    try:
        return explore(r, prop, tier, t0, built)
    finally:
        r.close()


def explore(r, prop, tier, t0, built):
    out, slots, kn = r.dir / "out.json", r.dir / "slots", r.dir / "known"
    listed = known(prop)
    kn.write_text("\n".join(listed) + "\n")
    hard = 420 if tier == "quick" else 860
    p = subprocess.Popen([str(BIN), "run", prop, tier, str(out), str(slots), str(kn)], stderr=subprocess.PIPE, text=True, preexec_fn=limits)
    try:
        _, err = p.communicate(timeout=max(30, hard - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
    rc = p.returncode
    if err.strip():
        print(err.strip()[-2000:])
    doc = {}
    if rc in (0, 1, 2) and out.exists():
        doc = json.loads(out.read_text())
    violation = doc.get("violation")
    code = {0: 0, 1: 1}.get(rc, 2)
    if violation and not violation["case"]:
        what, _, case = r.one(violation["space_index"], violation["chunk"])
        violation["case"] = case if what != "held" else ""
    if rc == 3 or rc < 0 or (rc == 101):
        # A hang or a crash takes the process with it: find the chunk among those that were running
        print(f"the exploration ended with {rc}; looking for the case")
        running = []
        if slots.exists():
            for l in slots.read_text().splitlines():
                f = l.split()
                if len(f) == 3 and f[0] == "run":
                    running.append((int(f[1]), int(f[2])))
        from concurrent.futures import ThreadPoolExecutor

        with ThreadPoolExecutor(8) as ex:
            found = list(ex.map(lambda c: (c, r.one(*c)), sorted(set(running))))
        for (si, ci), (what, detail, case) in found:
            if what in ("hang", "crash", "violation") and violation is None:
                violation = {"space": str(si), "space_index": si, "chunk": ci, "msg": f"{what}: {detail}", "case": case, "code": ""}
                code = 1
        if violation is None:
            print("no single chunk reproduces it: " + str([(c, f[0]) for c, f in found]))
    hit = doc.get("known_hit", [])
    for key in listed:
        if key in hit:
            print(f"KNOWN-FINDING: property={prop} {listed[key]}")
    wall = time.time() - t0
    spaces = doc.get("spaces", [])
    cov = {
        "states": doc.get("states", 0),
        "transitions": doc.get("transitions", 0),
        "traces_validated_against_impl": doc.get("traces", 0),
        "evaluations": doc.get("evaluations", 0),
        "distinct_nontrivial": doc.get("nontrivial", 0),
        "rule": RULE[prop] + "; every case of every space is executed on the real code",
        "exhaustive": bool(doc) and not doc.get("capped", True) and code == 0,
        "samples": doc.get("samples", []) or ["none: the exploration did not finish"],
        "meaning": "states: distinct reference-model states (or schedule prefixes, pairs) reached; transitions: operations executed on the implementation; traces: complete histories or schedules executed in lock-step with the reference",
        "spaces": spaces,
        "capped": doc.get("capped", True),
        "slowest_chunk_ms": doc.get("slowest_chunk_ms", 0),
        "build_s": round(built, 2),
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": COMMON,
        "wall_s": round(wall, 3),
        "violations": 1 if code == 1 else 0,
    }
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print(
        f"{prop} {tier}: {cov['states']} states, {cov['transitions']} transitions, {cov['traces_validated_against_impl']} traces, {cov['evaluations']} judged"
        f"{' (capped)' if cov['capped'] else ''}, {wall:.1f} s (build {built:.1f} s)"
    )
    if code == 1 and violation:
        report(prop, tier, violation)
    elif code == 2:
        print("no verdict")
    return code


def replay(path):
    d = json.loads(Path(path).read_text())
    if not build():
        return 2
    r = Run(d["property"], d["tier"])
    try:
        what, detail, case = r.one(d["space_index"], d["chunk"])
    finally:
        r.close()
    print(what)
    print(detail)
    print("last case: " + case[:3000])
    return {"held": 0, "violation": 1, "hang": 1, "crash": 1}.get(what, 2)


def main(a):
    tier = os.environ.get("VERIF_TIER") or "quick"
    if a[:1] == ["build"]:
        return 0 if build() else 2
    if a[:1] == ["run"] and len(a) >= 2:
        return run(a[1], a[2] if len(a) > 2 else tier)
    if a[:1] == ["all"]:
        worst = 0
        for p in RULE:
            worst = max(worst, run(p, a[1] if len(a) > 1 else tier))
        return worst
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
