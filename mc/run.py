#!/opt/venv/bin/python
"""mc/run.py <property> : runs the check of one property against /repo's current tree.
   mc/run.py --replay <file> : executes a recorded violation again."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
os.environ.update(OMP_NUM_THREADS=os.environ.get("PHILMC_OMP", "1"), MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", HELION_INTERPRET="1",
                  PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TORCHINDUCTOR_CACHE_DIR="/tmp/philmc-inductor")
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)


def load_findings():
    import json
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f.get("status") == "open"]


def main(argv):
    import importlib
    import json
    import time
    import warnings
    warnings.filterwarnings("ignore")
    t0 = time.time()
    replay = None
    if argv[0] == "--replay":
        replay = json.load(open(argv[1]))
        prop = replay["property"]
    else:
        prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    from mc import build
    root, how = build.prepare()
    sys.path.insert(0, root)
    os.environ["PHILMC_TREE"] = root
    import torch
    torch.set_num_threads(1)
    import philtorch
    assert philtorch.__file__.startswith(root), philtorch.__file__
    from mc import core
    mod = importlib.import_module(f"mc.{prop.lower()}")

    if replay is not None:
        return do_replay(replay, core, mod, tier, seed)

    tasks = mod.plan(tier)
    only = os.environ.get("PHILMC_ONLY")
    if only:
        tasks = [t for t in tasks if only in t[0]]
    limit = int(os.environ.get("PHILMC_LIMIT", "700" if tier == "quick" else "20000"))
    known = {f["key"]: f for f in load_findings() if f["property"] == prop}
    # the answer is known with the first violation that is not a listed finding
    stop = None if os.environ.get("PHILMC_ALL") else lambda r: any(v["finding"] not in known for v in r["viol"])
    results = core.run_tasks(prop, tasks, tier, seed, jobs=int(os.environ.get("PHILMC_JOBS", "8")), limit=limit, stop=stop)
    planned, done = len(tasks), [z for z in zip(tasks, results) if z[1] is not None]
    tasks, results = [z[0] for z in done], [z[1] for z in done]

    count, distinct, samples, viols, errors = {}, set(), [], [], []
    for (name, _, _), r in zip(tasks, results):
        for k, v in r["count"].items():
            count[k] = count.get(k, 0) + v
        distinct |= r["distinct"]
        samples += r["samples"][:1]
        viols += r["viol"]
        if r["error"]:
            errors.append((name, r["error"]))
    if os.environ.get("PHILMC_VERBOSE"):
        for (name, _, params), r in sorted(zip(tasks, results), key=lambda z: -z[1]["wall"])[:12]:
            print(f"  {r['wall']:7.2f} s {name} {params} {r['count']}")

    hit, new = {}, []
    for v in viols:
        if v["finding"] is not None and v["finding"] in known:
            hit[v["finding"]] = v
        else:
            new.append(v)
    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")

    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    path = None
    for i, v in enumerate(new[:int(os.environ.get("PHILMC_SHOW", 10))]):
        path_i = os.path.join(VERIF, "replay", f"{prop}-{i}.json")
        json.dump(dict(property=prop, what=v["what"], task=v["task"], case=v["case"]), open(path_i, "w"), default=str)
        path = path or path_i
        print(f"  {v['what'][:600]}")

    level = mod.LEVEL
    cov = dict(count)
    cov["tasks"] = len(tasks)
    cov["samples"] = samples[:12]
    cov["extension"] = how
    if level == "exploration":
        cov.setdefault("evaluations", 0)
        cov["distinct_nontrivial"] = len(distinct)
        cov["rule"] = mod.RULE
    elif level == "model_checking":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
        cov["model"] = mod.RULE
    cov["bounds"] = mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    cov["exhaustive"] = not errors and len(tasks) == planned
    cov["known_findings_hit"] = sorted(hit)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=str)

    brief = {k: v for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool)}
    print(f"{prop} {tier}: {brief} wall={ev['wall_s']}s")
    if new:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for n, e in errors[:5]:
            print(f"error of the check in task {n}:\n{e}", file=sys.stderr)
        return 2
    return 0


def do_replay(r, core, mod, tier, seed):
    c = r.get("case")
    print(r["what"])
    if c and "fn" in c:
        args, kw = core.dec(c["args"]), core.dec(c["kw"])
        ctx = core.Ctx(r["property"], None, tier, seed)
        got, err = ctx.call(core.resolve(c["fn"]), *args, **kw)
        d = f"raised {err}" if err else core.differs(core.dec(c["expected"]), got, c.get("tol"), c.get("dtype", True))
        print("REPRODUCED: " + d if d else "not reproduced: the call gives the expected result")
        return 1 if d else 0
    t = r["task"]
    for name, fn, params in mod.plan(tier) + mod.plan("thorough"):
        if name == t["name"] and json_eq(params, t["params"]):
            res = core.run_tasks(r["property"], [(name, fn, params)], tier, seed, jobs=1)[0]
            for v in res["viol"]:
                print("REPRODUCED:", v["what"][:600])
            return 1 if res["viol"] else 0
    print("task not found")
    return 2


def json_eq(a, b):
    import json
    return json.loads(json.dumps(a, default=str)) == json.loads(json.dumps(b, default=str))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
