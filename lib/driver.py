"""Seeded search, gating, minimisation, replay files and evidence."""
import hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build as B
import registry as R

VERIF = B.VERIF
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, os.cpu_count() or 2)

def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    return tempfile.mkdtemp(prefix="vcheck.", dir=base)

class Abort(Exception):
    """the check itself failed (no verdict)"""

def sh_env():
    e = dict(os.environ)
    e.pop("ASAN_OPTIONS", None)
    return e

def run_script(exe, prop, lines, tmp, verbose=False, symbolize=False):
    fd, p = tempfile.mkstemp(suffix=".script", dir=tmp)
    with os.fdopen(fd, "w") as f:
        f.write("\n".join(lines) + "\n")
    env = sh_env()
    env["ASAN_OPTIONS"] = "symbolize=%d" % (1 if symbolize else 0)
    env["SIM_SCRATCH"] = tmp
    try:
        r = subprocess.run([exe, "run", prop, p] + (["-v"] if verbose else []), capture_output=True,
                           text=True, errors="replace", env=env, timeout=300)
    finally:
        os.unlink(p)
    m = re.search(r"^RESULT (\S+) hash=(\w+) events=(\d+) detail=(.*)$", r.stdout, re.M)
    if not m:
        raise Abort("no RESULT from %s: %s %s" % (exe, r.stdout[-500:], r.stderr[-500:]))
    return {"cls": m.group(1), "hash": m.group(2), "events": int(m.group(3)), "detail": m.group(4),
            "out": r.stdout, "err": r.stderr}

def site_of(err):
    """first frame in the library, from a symbolised sanitizer report"""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+):(\d+)", err):
        if "/src/lib/" in m.group(2) or "/include/" in m.group(2):
            if m.group(2).startswith(B.REPO):
                fn = re.sub(r"\(.*", "", m.group(1))
                return "%s (%s)" % (fn, os.path.relpath(m.group(2), B.REPO))
    return ""

def base_seed(seed, prop, cfg):
    h = hashlib.sha256(("%d/%s/%s" % (seed, prop, cfg)).encode()).digest()
    return struct.unpack("<Q", h[:8])[0] >> 16

def batch(exe, prop, cfg, seed0, n, tmp, maxs):
    fd, out = tempfile.mkstemp(suffix=".json", dir=tmp)
    os.close(fd)
    env = sh_env()
    env["ASAN_OPTIONS"] = "symbolize=0"
    env["SIM_SCRATCH"] = tmp
    r = subprocess.run([exe, "batch", prop, cfg, str(seed0), str(n), out, str(maxs)],
                       capture_output=True, text=True, env=env)
    if r.returncode != 0:
        raise Abort("batch failed (%d): %s" % (r.returncode, r.stderr[-800:]))
    with open(out) as f:
        d = json.load(f)
    def rd(sfx):
        with open(out + sfx, "rb") as f:
            b = f.read()
        os.unlink(out + sfx)
        return struct.unpack("<%dQ" % (len(b) // 8), b)
    d["_states"], d["_runs"], d["_seeds"] = rd(".states"), rd(".runs"), rd(".seeds")
    os.unlink(out)
    return d

def gen_script(exe, prop, cfg, seed):
    r = subprocess.run([exe, "gen", prop, cfg, str(seed)], capture_output=True, text=True, env=sh_env())
    if r.returncode:
        raise Abort("gen failed: " + r.stderr[-400:])
    return r.stdout.split("\n")[:-1] if r.stdout.endswith("\n") else r.stdout.split("\n")

def minimise(exe, prop, lines, cls, tmp, budget_s=60, detail_key=None):
    """ddmin over script lines; then shrink integers; same violation class"""
    t0 = time.time()
    def bad(ls):
        try:
            r = run_script(exe, prop, ls, tmp)
        except Abort:
            return False
        return r["cls"] == cls
    def bad_many(cands):
        with ThreadPoolExecutor(WORKERS) as ex:
            return list(ex.map(bad, cands))
    n = 2
    while len(lines) >= 2 and time.time() - t0 < budget_s:
        size = max(1, (len(lines) + n - 1) // n)
        chunks = [(i, min(i + size, len(lines))) for i in range(0, len(lines), size)]
        cands = [lines[:a] + lines[b:] for a, b in chunks]
        hit = None
        for k in range(0, len(cands), WORKERS):
            res = bad_many(cands[k:k + WORKERS])
            for j, ok in enumerate(res):
                if ok:
                    hit = cands[k + j]
                    break
            if hit is not None or time.time() - t0 > budget_s:
                break
        if hit is not None:
            lines = hit
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(lines), n * 2)
    # simplify integer arguments (one pass)
    i = 0
    while i < len(lines) and time.time() - t0 < budget_s:
        toks = lines[i].split(" ")
        if toks and toks[0] in R.SHRINKABLE:
            for k in range(1, len(toks)):
                if re.fullmatch(r"\d+", toks[k]) and int(toks[k]) > 1:
                    for v in sorted({0, 1, int(toks[k]) // 2, int(toks[k]) - 1}):
                        if v >= int(toks[k]):
                            continue
                        t2 = list(toks)
                        t2[k] = str(v)
                        cand = lines[:i] + [" ".join(t2)] + lines[i + 1:]
                        if bad(cand):
                            lines = cand
                            toks = t2
                            break
        i += 1
    return lines

def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])

def match_known(known, prop, cls, detail, lines):
    for k in known:
        if k.get("fixed") or k["property"] != prop:
            continue
        if not re.fullmatch(k["class"], cls):
            continue
        if k.get("detail") and not re.search(k["detail"], detail):
            continue
        if k.get("script") and not any(re.search(k["script"], l) for l in lines):
            continue
        return k
    return None

def check(prop, tier, seed):
    t_start = time.time()
    spec = R.PROPS[prop]
    known = load_known()
    tmp = scratch()
    try:
        return _check(prop, tier, seed, spec, known, tmp, t_start)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def _check(prop, tier, seed, spec, known, tmp, t_start):
    print("property %s tier=%s seed=%d workers=%d" % (prop, tier, seed, WORKERS), flush=True)
    parts = spec["parts"]
    tb = time.time()
    exes = {}
    for part in parts:
        w = R.WORLDS[part["world"]]
        if part["world"] not in exes:
            exes[part["world"]] = B.build(w["source"], w["flavour"], w["groups"], w.get("defines", ()),
                                          w.get("extra", ()))
    build_s = time.time() - tb
    print("built %s in %.1fs" % (", ".join(sorted(exes)), build_s), flush=True)
    budget = float(os.environ.get("VERIF_BUDGET_S", spec.get("quick_s", 150) if tier == "quick" else 780))
    tot = dict(runs=0, events=0, evals=0, simtime=0.0)
    counters, states, runs, classes = {}, set(), set(), {}
    fails, samples, percfg = [], [], {}
    determinism = {"seeds_rerun": 0, "diverged": 0}
    search_s = 0.0
    wsum = sum(p["quick" if tier == "quick" else "thorough"] * p.get("cost", 1.0) for p in parts)
    for part in parts:
        exe, cfg = exes[part["world"]], part["cfg"]
        n = part["quick" if tier == "quick" else "thorough"]
        maxs = max(5.0, budget * n * part.get("cost", 1.0) / wsum)
        s0 = base_seed(seed, prop, cfg)
        t0 = time.time()
        nch = WORKERS * 2
        step = max(1, (n + nch - 1) // nch)
        jobs = [(s0 + a, min(step, n - a)) for a in range(0, n, step)]
        with ThreadPoolExecutor(WORKERS) as ex:
            res = list(ex.map(lambda j: batch(exe, prop, cfg, j[0], j[1], tmp, maxs / 2), jobs))
        # determinism: the same seeds again, in other processes, split differently
        m = min(n, part.get("rerun", 64))
        k = max(1, m // 5)
        firsthash = []
        for (sd, c), d in zip(jobs, res):
            firsthash += [(sd + i, h) for i, h in enumerate(d["_seeds"])]
        fh = dict(firsthash)
        rj = [(s0 + a, min(k, m - a)) for a in range(0, m, k)]
        with ThreadPoolExecutor(min(3, WORKERS)) as ex:
            rr = list(ex.map(lambda j: batch(exe, prop, cfg, j[0], j[1], tmp, maxs), rj))
        for (sd, c), d in zip(rj, rr):
            for i, h in enumerate(d["_seeds"]):
                if sd + i in fh:
                    determinism["seeds_rerun"] += 1
                    if fh[sd + i] != h:
                        determinism["diverged"] += 1
                        print("nondeterministic seed %d cfg %s" % (sd + i, cfg))
        search_s += time.time() - t0
        cr = 0
        for d in res:
            cr += d["runs"]
            for key in tot:
                tot[key] += d[key]
            for c, v in d["counters"].items():
                counters[c] = counters.get(c, 0) + v
            for c, v in d["classes"].items():
                classes[c] = classes.get(c, 0) + v
            states.update(d["_states"])
            runs.update(d["_runs"])
            for f in d["fails"]:
                f["cfg"], f["world"] = cfg, part["world"]
                fails.append(f)
        percfg[cfg] = {"runs": cr, "seed0": s0, "seconds": round(time.time() - t0, 2)}
        sc = gen_script(exe, prop, cfg, s0 + 1)
        samples.append({"cfg": cfg, "seed": s0 + 1, "script": sc[:40], "script_lines": len(sc)})
        print("  %-14s %7d runs  %6.1fs  failing classes so far: %s" %
              (cfg, cr, time.time() - t0, classes or "none"), flush=True)
    if determinism["diverged"]:
        raise Abort("%d seed(s) did not repeat" % determinism["diverged"])
    # --- violations
    status, viol, known_hit = 0, [], {}
    seen = {}
    unknown = {}
    gate_errors = []
    for f in sorted(fails, key=lambda f: (f["cls"], f["seed"])):
        key = (f["cls"], f["world"])
        if seen.get(key, 0) >= (6 if tier == "quick" else 20):
            continue
        exe = exes[f["world"]]
        lines = gen_script(exe, prop, f["cfg"], f["seed"])
        a = run_script(exe, prop, lines, tmp, symbolize=True)
        detail = a["detail"] + " " + site_of(a["err"])
        k = match_known(known, prop, a["cls"], detail, lines)
        seen[key] = seen.get(key, 0) + 1
        if k:
            known_hit.setdefault(k["id"], (k, f, detail))
            continue
        if key in unknown:
            continue
        b = run_script(exe, prop, lines, tmp)
        if (a["cls"], a["hash"]) != (b["cls"], b["hash"]) or a["cls"] != f["cls"]:
            gate_errors.append("seed %d cfg %s: %s / %s,%s / %s,%s" % (f["seed"], f["cfg"], f["cls"], a["cls"], a["hash"], b["cls"], b["hash"]))
            continue
        small = minimise(exe, prop, lines, f["cls"], tmp, 40 if tier == "quick" else 120)
        r1 = run_script(exe, prop, small, tmp, symbolize=True)
        r2 = run_script(exe, prop, small, tmp)
        if r1["cls"] != f["cls"] or (r1["cls"], r1["hash"]) != (r2["cls"], r2["hash"]):
            small, r1 = lines, a
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        tag = re.sub(r"[^A-Za-z0-9]+", "-", f["cls"])[:40]
        path = os.path.join(VERIF, "replays", "%s-%s-%d.replay" % (prop, tag, f["seed"]))
        detail = (r1["detail"] + " " + site_of(r1["err"])).strip()
        with open(path, "w") as o:
            o.write("# replay of property %s, world %s, cfg %s, seed %d\n" % (prop, f["world"], f["cfg"], f["seed"]))
            o.write("# expect class=%s hash=%s\n# %s\n" % (r1["cls"], r1["hash"], detail))
            o.write("# minimised from %d to %d lines; run: bin/replay %s\n" % (len(lines), len(small), path))
            o.write("\n".join(small) + "\n")
        unknown[key] = path
        viol.append({"class": f["cls"], "detail": detail, "seed": f["seed"], "cfg": f["cfg"], "replay": path,
                     "lines": len(small)})
        print("  violation class %s seed %d: %s" % (f["cls"], f["seed"], detail))
        if len(viol) >= (3 if tier == "quick" else 8):
            break
    if gate_errors and not viol:
        raise Abort("violations that did not replay: " + "; ".join(gate_errors[:3]))
    # --- evidence
    wall = time.time() - t_start
    fk = {c[6:]: v for c, v in counters.items() if c.startswith("fault:")}
    pk = {c[6:]: v for c, v in counters.items() if c.startswith("probe:")}
    ok = {c[3:]: v for c, v in counters.items() if c.startswith("op:")}
    missing = [p for p in spec.get("probes", []) if not pk.get(p)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": tot["evals"] or tot["runs"],
            "distinct_nontrivial": len(runs),
            "rule": spec["rule"] + " A run counts as non-trivial when it performed the property's comparison "
                    "after its faults/schedule took effect; distinct by the hash of its event log.",
            "samples": samples,
            "simulated_runs": tot["runs"],
            "runs_per_hour": int(tot["runs"] / max(search_s, 1e-6) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(search_s, 1e-6) * 3600),
            "simulated_seconds": round(tot["simtime"], 3),
            "events": tot["events"],
            "fault_kinds_fired": fk, "reach_probes": pk, "operations": ok,
            "probes_never_hit": missing,
            "distinct_states": len(states), "state_measure": spec.get("measure", ""),
            "configurations": percfg, "determinism_rerun": determinism,
            "real_components": spec.get("real", []), "stubbed_components": spec.get("stub", []),
            "failing_classes": classes,
            "known_findings_seen": sorted(known_hit),
            "build_s": round(build_s, 1), "search_s": round(search_s, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    for k in known:
        if not k.get("fixed") and k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if k["id"] in known_hit else " (not reached in this run)"))
    for p in missing:
        print("  note: probe %s not reached" % p)
    print("%d runs, %d distinct non-trivial, %d states, %.0f runs/h, wall %.1fs" %
          (tot["runs"], len(runs), len(states), tot["runs"] / max(search_s, 1e-6) * 3600, wall))
    for v in viol:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]), flush=True)
    return 1 if viol else 0

def replay(path):
    with open(path) as f:
        txt = f.read().split("\n")
    head = "\n".join(l for l in txt if l.startswith("#"))
    m = re.search(r"property (\w+), world (\w+)", head)
    e = re.search(r"expect class=(\S+) hash=(\w+)", head)
    prop, world = m.group(1), m.group(2)
    w = R.WORLDS[world]
    exe = B.build(w["source"], w["flavour"], w["groups"], w.get("defines", ()), w.get("extra", ()))
    tmp = scratch()
    try:
        r = run_script(exe, prop, [l for l in txt if l and not l.startswith("#")], tmp, verbose=True, symbolize=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.write(r["out"])
    sys.stdout.write("\n".join(r["err"].split("\n")[:40]) + "\n")
    same = r["cls"] == e.group(1) and r["hash"] == e.group(2)
    print("REPLAY %s (class %s, expected %s)" % ("reproduced exactly" if same else "DIFFERENT", r["cls"], e.group(1)))
    return 1 if r["cls"] != "ok" else 0
