#!/usr/bin/env python3
"""Decides one property by monitored executions of the code in /repo.

usage: check.py <property> [--tier quick|thorough] [--seconds N]
Exit 0: held on everything explored (known findings are named). Exit 1: a VIOLATION line. Exit 2: no answer.
"""
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plan  # noqa: E402
import known  # noqa: E402

TARGET = os.path.join(HERE, "target")


class Trouble(Exception):
    """The check could not be carried out."""


def cargo_env(target):
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, check=True).stdout
    env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, target)
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    return env


def build(crate, target, args=(), env=None, toolchain=None):
    e = cargo_env(target)
    e.update(env or {})
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", *args]
    t = time.time()
    r = subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise Trouble(f"building {crate} failed:\n{r.stderr[-6000:]}")
    return time.time() - t


class Merged:
    def __init__(self):
        self.evaluations = 0
        self.trivial = 0
        self.events = 0
        self.distinct = set()
        self.per_family = {}
        self.stats = {}
        self.samples = []
        self.violations = []
        self.other = {}
        self.inconclusive = []
        self.notes = []

    def add(self, d):
        self.evaluations += d.get("evaluations", 0)
        self.trivial += d.get("trivial", 0)
        self.events += d.get("events", 0)
        self.distinct.update(d.get("distinct", []))
        for k in ("per_family", "stats", "other"):
            mine = getattr(self, k)
            for a, n in d.get(k, {}).items():
                mine[a] = mine.get(a, 0) + n
        if len(self.samples) < 6:
            self.samples.extend(d.get("samples", [])[:2])
        self.violations.extend(d.get("violations", []))
        self.inconclusive.extend(d.get("inconclusive", []))


def run_vloc(prop, part, seed, m, deadline, target="loc", prefix=(), env=None, label=""):
    """Several processes with seeds of their own."""
    binary = os.path.join(TARGET, target, part.get("path", "debug/vloc"))
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    procs = []
    for shard in range(part["shards"]):
        out = os.path.join(HERE, "replays", f".{prop}.{label}{shard}.{os.getpid()}.json")
        cmd = [*prefix, binary, "run", prop, "--seed", str(seed), "--shard", str(shard), "--ms", str(int(part["seconds"] * 1000)), "--out", out]
        if part.get("only"):
            cmd += ["--only", part["only"]]
        if part.get("weight"):
            cmd += ["--weight", str(part["weight"])]
        err = open(out + ".err", "w+")
        procs.append((subprocess.Popen(cmd, stdout=err, stderr=err, env={**os.environ, **(env or {})}, cwd=HERE, start_new_session=True), out, err, cmd))
    bad = []
    for p, out, err, cmd in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            bad.append(f"ran out of time: {' '.join(cmd)}")
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        err.seek(0)
        text = err.read()
        err.close()
        os.unlink(out + ".err")
        data = None
        if os.path.exists(out):
            try:
                with open(out) as f:
                    data = json.load(f)
            except ValueError:
                pass
            os.unlink(out)
        for v in plan.sanitizer_reports(text):
            m.violations.append({"props": [prop], "family": label or "loc", "case": "0", "history": text.splitlines()[:200], **v, "cmd": " ".join(cmd)})
        if data:
            for v in data.get("violations", []):
                v["cmd"] = " ".join(cmd)
            m.add(data)
        elif p.returncode in (-6, -11, -4, -7, -8):
            m.violations.append({"props": [prop], "sig": f"crash:signal{-p.returncode}", "family": label or "loc", "case": "0",
                                 "detail": text[-1500:], "history": text.splitlines()[-200:], "cmd": " ".join(cmd)})
        elif not bad:
            bad.append(f"no report (exit {p.returncode}): {' '.join(cmd)}\n{text[-1500:]}")
    if bad and not m.violations:
        raise Trouble("; ".join(bad))


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 860 if tier == "quick" else 6 * 3600
    deadline = t0 + limit
    m = Merged()
    m.violations = []
    parts = plan.parts(prop, tier)
    if "--seconds" in args:
        for p in parts:
            p["seconds"] = float(args[args.index("--seconds") + 1])
    if "--parts" in args:
        names = args[args.index("--parts") + 1].split(",")
        parts = [p for p in parts if p["kind"] in names]
    trouble = None
    done = []
    for part in parts:
        try:
            before = (m.evaluations, m.events, len(m.distinct))
            t1 = time.time()
            plan.run_part(sys.modules[__name__], prop, part, seed, m, deadline)
            done.append({"part": part["kind"], "seconds": round(time.time() - t1, 1), "evaluations": m.evaluations - before[0],
                         "events": m.events - before[1], "distinct": len(m.distinct) - before[2], "what": part.get("what", "")})
        except Trouble as e:
            trouble = e
            break
    listed = known.load(os.path.join(HERE, "KNOWN_FINDINGS.txt"))
    fresh, seen = [], set()
    for v in m.violations:
        k = known.match(listed, prop, v)
        if k:
            if k not in seen:
                seen.add(k)
        elif not any(w["sig"] == v["sig"] for w in fresh):
            fresh.append(v)
    for k in known.open_for(listed, prop):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": m.evaluations,
            "distinct_nontrivial": len(m.distinct),
            "rule": plan.RULE,
            "samples": m.samples[:6],
            "events_observed": m.events,
            "trivial": m.trivial,
            "cases_per_family": m.per_family,
            "observed": m.stats,
            "parts": done,
            "other_properties": m.other,
            "inconclusive": m.inconclusive[:10],
        },
        "assumptions": plan.ASSUMPTIONS + plan.assumptions(prop),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(fresh),
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v in enumerate(fresh):
            path = os.path.join(HERE, "replays", f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, **v}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['sig']}: {v['detail'][:500]} (family {v['family']}, case {v['case']})")
        return 1
    if trouble:
        print(f"no answer for {prop}: {trouble}", file=sys.stderr)
        return 2
    if m.inconclusive:
        print("\n".join(["no answer, the harness failed:"] + m.inconclusive[:5]), file=sys.stderr)
        return 2
    if m.evaluations == 0 or len(m.distinct) < plan.least(prop):
        print(f"no answer for {prop}: nothing observed", file=sys.stderr)
        return 2
    print(f"{prop} held: {m.evaluations} executions, {len(m.distinct)} distinct, {m.events} events, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
