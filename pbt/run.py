"""Command line: python -m pbt.run P01 [--tier quick|thorough] [--replay FILE]."""

import argparse
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import queue
import resource
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("PBT_EVIDENCE") or os.path.join(VERIF, "evidence")

logging.disable(logging.CRITICAL)

SHARDS = 16
WORKERS = int(os.environ.get("PBT_WORKERS", "8"))
MEM_LIMIT = 4 << 30


def seed_for(base, prop, sub, shard):
    h = hashlib.blake2b(f"{base}/{prop}/{sub}/{shard}".encode(), digest_size=6).digest()
    return int.from_bytes(h, "big")


def load(prop):
    mod = importlib.import_module(f"pbt.props.{prop.lower()}")
    return mod


def known_findings(prop):
    """Entries `known: property=<id> case=<sub> input=<json> what=<text>`."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith(f"known: property={prop} "):
                continue
            rest = line.split(" case=", 1)[1]
            case, rest = rest.split(" input=", 1)
            inp, what = rest.split(" what=", 1)
            out.append({"case": case, "input": json.loads(inp), "what": what})
    return out


def worker(prop, tasks, results, stop):
    from pbt import core

    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        mod = load(prop)
        subs = {s.name: s for s in mod.SUBS}
        while True:
            try:
                task = tasks.get_nowait()
            except queue.Empty:
                break
            if task is None:
                break
            name, n, seed = task
            if stop.is_set():
                continue
            st = core.search(subs[name], n, seed, stop)
            results.put((name, st.dump()))
    except BaseException:  # noqa: BLE001
        results.put(("", {"error": traceback.format_exc()}))
    results.put(None)
    results.close()
    results.join_thread()
    os._exit(0)


def write_replay(prop, case, spec, msg):
    d = os.path.join(EVIDENCE, "replay", prop)
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps([case, spec], sort_keys=True).encode(), digest_size=5)
    path = os.path.join(d, f"{case}-{h.hexdigest()}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "case": case, "input": spec, "message": msg}, f, indent=1)
        f.write("\n")
    return path


def replay(prop, path):
    from pbt import core

    with open(path) as f:
        data = json.load(f)
    mod = load(prop)
    subs = {s.name: s for s in mod.SUBS}
    try:
        core.run_case(subs[data["case"]], data["input"], core.Ctx())
    except core.Violation as v:
        print(f"case={data['case']} input={core.canon(data['input'])}")
        print(f"message: {v}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"replay of {path}: the property holds")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run a single sub-check (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply case counts (development)")
    args = ap.parse_args()
    prop = args.prop
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()

    if args.replay:
        sys.exit(replay(prop, args.replay))

    from pbt import core

    mod = load(prop)
    subs = [s for s in mod.SUBS if not args.only or s.name in args.only.split(",")]
    by_name = {s.name: s for s in mod.SUBS}
    violations = []  # (case, spec, message)
    evaluations = 0
    nontrivial = set()
    labels = Counter()
    samples = []
    per_case = Counter()

    # Known findings are replayed first; they are reported, but are not violations
    known = known_findings(prop)
    known_keys = set()
    for k in known:
        known_keys.add((k["case"], core.canon(k["input"])))
        try:
            core.run_case(by_name[k["case"]], k["input"], core.Ctx())
        except core.Violation:
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)

    # Committed edge cases
    corpus_n = 0
    for s in subs:
        for spec in s.corpus:
            spec = core.roundtrip(spec)
            corpus_n += 1
            st = core.Stats()
            ctx = core.Ctx()
            try:
                core.run_case(s, spec, ctx)
            except core.Violation as v:
                if (s.name, core.canon(spec)) not in known_keys:
                    violations.append((s.name, spec, str(v)))
                    break
            st.note(s, spec, ctx)
            evaluations += 1
            per_case[s.name] += 1
            nontrivial |= st.nontrivial
            labels += st.labels

    errors = []
    if not violations:
        mp.set_start_method("fork")
        stop = mp.Event()
        tasks = mp.Queue()
        results = mp.Queue()
        todo = []
        for s in subs:
            n = max(1, int((s.quick if tier == "quick" else s.thorough) * args.scale))
            shards = min(SHARDS, s.shards, n)
            for i in range(shards):
                k = n // shards + (1 if i < n % shards else 0)
                todo.append((s.name, k, seed_for(seed, prop, s.name, i)))
        # Interleave sub-checks, so that every one of them starts early
        order = {}
        for t in todo:
            order.setdefault(t[0], []).append(t)
        todo = []
        while any(order.values()):
            for v in order.values():
                if v:
                    todo.append(v.pop(0))
        for t in todo:
            tasks.put(t)
        for _ in range(WORKERS):
            tasks.put(None)
        procs = [mp.Process(target=worker, args=(prop, tasks, results, stop)) for _ in range(WORKERS)]
        time.sleep(0.2)  # Let the feeder thread of the queue fill the pipe
        for p in procs:
            p.start()
        done = 0
        while done < len(procs):
            try:
                r = results.get(timeout=5)
            except queue.Empty:
                if not any(p.is_alive() for p in procs):
                    dead = [p.exitcode for p in procs if p.exitcode != 0]
                    if dead:
                        errors.append(f"worker died: {dead}")
                    break
                continue
            if r is None:
                done += 1
                continue
            name, d = r
            if d.get("error"):
                errors.append(d["error"])
                continue
            evaluations += d["evaluations"]
            per_case[name] += d["evaluations"]
            nontrivial |= d["nontrivial"]
            labels += d["labels"]
            samples.extend(d["samples"])
            if d["failure"]:
                name, spec, msg = d["failure"]
                if (name, core.canon(spec)) not in known_keys:
                    violations.append((name, spec, msg))
        for p in procs:
            p.join()

    # One or two samples of every sub-check
    seen = Counter()
    picked = []
    for s in sorted(samples, key=lambda s: (s["case"], core.canon(s))):
        if seen[s["case"]] < 2:
            seen[s["case"]] += 1
            picked.append(s)

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": " | ".join(f"{s.name}: {s.rule}" for s in subs),
            "samples": picked,
            "cases_per_check": dict(per_case),
            "corpus_cases": corpus_n,
            "labels": dict(sorted(labels.items())),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    d = EVIDENCE
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if violations:
        name, spec, msg = min(violations, key=lambda v: len(core.canon(v[1])))
        path = write_replay(prop, name, spec, msg)
        print(f"case={name} input={core.canon(spec)}")
        print(f"message: {msg}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        sys.exit(1)
    if errors:
        print("\n".join(errors)[-6000:], file=sys.stderr)
        core.die(f"{prop}: the check itself failed")
    print(
        f"{prop}: held in {evaluations} cases ({len(nontrivial)} distinct non-trivial), "
        f"{evidence['wall_s']} s"
    )
    sys.exit(0)


if __name__ == "__main__":
    main()
