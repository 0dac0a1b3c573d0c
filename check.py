#!/usr/bin/env python3
"""Decides one property: builds the explorers from /repo's current tree, runs them, writes the evidence.

usage: check.py PROPERTY [--tier quick|thorough]
       check.py --replay FILE
       check.py --setup
Exit 0: held on everything explored.  1: violated (a VIOLATION line names the replay file).
Anything else: the check itself could not give an answer.
"""
import hashlib, json, os, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MC = os.path.join(VERIF, "mc")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import registry  # noqa: E402

CRATES = ["triple_arena", "triple_arena_render"]


def log(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for root in CRATES:
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs[:] = sorted(x for x in dirs if x != "target")
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".md")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    for d, dirs, files in os.walk(os.path.join(MC, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def target_dir(serde):
    return os.path.join(MC, "target", "serde" if serde else "base")


def build(bins, serde):
    """Builds from the current tree; cargo looks at mtimes only, so a changed content hash forces it."""
    td = target_dir(serde)
    os.makedirs(td, exist_ok=True)
    stamp = os.path.join(td, ".tree")
    now = tree_hash()
    e = env()
    e["CARGO_TARGET_DIR"] = td
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != now:
        subprocess.run(
            ["cargo", "clean", "--release", "--offline", "-p", "triple_arena", "-p", "triple_arena_render", "-p", "mc"],
            cwd=MC, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.remove(stamp)
    cmd = ["cargo", "build", "--release", "--offline", "--locked", "-q"]
    for b in bins:
        cmd += ["--bin", b]
    if serde:
        cmd += ["--features", "serde"]
    r = subprocess.run(cmd, cwd=MC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("error: the explorers do not build against the current tree")
        sys.exit(2)
    if tree_hash() == now:
        open(stamp, "w").write(now)


def binary(b, serde):
    return os.path.join(target_dir(serde), "release", b)


def run_bin(b, serde, args, timeout):
    """-> (returncode or None on timeout, output)"""
    p = subprocess.Popen([binary(b, serde)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def read_slots(path):
    res = []
    try:
        data = open(path, "rb").read()
    except OSError:
        return res
    for i in range(0, len(data), 8192):
        s = data[i:i + 8192]
        if len(s) < 8192:
            break
        flag, jl, dl = struct.unpack_from("<HHI", s, 0)
        if flag:
            res.append((flag, s[8:8 + jl].decode("utf8", "replace"), s[8 + jl:8 + jl + dl]))
    res.sort(key=lambda x: -x[0])
    return res


def describe(rc):
    if rc is None:
        return "does not finish"
    if rc == 77:
        return "allocates without bound"
    if rc == 78:
        return "does not finish (a single step runs forever)"
    if rc < 0:
        try:
            return "ends the process with " + signal.Signals(-rc).name
        except ValueError:
            return "ends the process with signal %d" % -rc
    return "exits with %d" % rc


def violation(prop, b, serde, tier, v, extra=""):
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    path = os.path.join(OUT, "replay", "%s.json" % prop)
    json.dump({"property": prop, "bin": b, "serde": serde, "tier": tier, "job": v.get("job"), "raw": v.get("raw"),
               "message": v.get("message"), "steps": v.get("steps", []),
               "replay_cmd": "python3 %s/check.py --replay %s" % (VERIF, path)}, open(path, "w"), indent=1)
    log("violated in exploration: %s" % v.get("job"))
    log("  %s" % v.get("message"))
    for i, s in enumerate(v.get("steps", [])):
        log("  %3d %s" % (i + 1, s))
    log("VIOLATION property=%s replay=%s" % (prop, path))


def crash(prop, b, serde, tier, rc, slots, base_args):
    """A run died. Re-runs the histories that were being executed; -> violation dict or None"""
    cands = read_slots(slots)
    for flag, job, raw in cands:
        tmp = slots + ".one"
        r, out = run_bin(b, serde, base_args + ["--only", job, "--raw", raw.hex(), "--slots", tmp], 60)
        if os.path.exists(tmp):
            os.remove(tmp)
        if r != 0:
            # steps of the history, if the binary can print them
            return {"job": job, "raw": raw.hex(), "message": "executing this history %s" % (
                out.strip().splitlines()[0] if r == 1 and out.strip() else describe(r)), "steps": []}
    return None


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    spec = registry.PROPS[prop]
    runs = spec["runs"]
    for serde in sorted({s for _, s in runs}):
        build([b for b, s in runs if s == serde], serde)
    t_build = time.time() - t0
    parts, notes, bad = [], [], None
    for b, serde in runs:
        tag = "%s-%s%s" % (prop, b, "-serde" if serde else "")
        outf = os.path.join(OUT, tag + ".json")
        slots = os.path.join(OUT, tag + ".slots")
        if os.path.exists(outf):
            os.remove(outf)
        base = ["--prop", prop, "--tier", tier]
        args = base + ["--out", outf, "--slots", slots]
        rc, out = run_bin(b, serde, args, 840 if tier == "quick" else 14000)
        log(out.rstrip())
        if rc in (0, 1) and os.path.exists(outf):
            d = json.load(open(outf))
            for p in d["parts"]:
                p["name"] = ("serde: " if serde else "") + p["name"]
            parts += d["parts"]
            notes += d["notes"]
            if d["violation"]:
                bad = (b, serde, d["violation"])
        elif rc is not None and (rc < 0 and rc != -signal.SIGKILL or rc in (77, 78)):
            v = crash(prop, b, serde, tier, rc, slots, base)
            if v is None:
                # the state that kills it may have built up; a second death settles that it is the code
                rc2, out2 = run_bin(b, serde, args, 840)
                if rc2 is not None and (rc2 < 0 and rc2 != -signal.SIGKILL or rc2 in (77, 78)):
                    v = {"job": "whole run", "raw": "", "message": "the exploration " + describe(rc2), "steps": []}
                else:
                    log("error: %s %s, not reproducible" % (b, describe(rc)))
                    sys.exit(2)
            bad = (b, serde, v)
        else:
            log("error: %s %s" % (b, describe(rc)))
            sys.exit(2)
        if os.path.exists(slots):
            os.remove(slots)
        if bad:
            break
    cov = {
        "states": sum(p["states"] for p in parts),
        "transitions": sum(p["transitions"] for p in parts),
        "traces_validated_against_impl": sum(p["traces"] for p in parts),
        "samples": [{"exploration": p["name"], "case": s[:600]} for p in parts for s in p["samples"]][:12],
        "exhaustive": bool(parts) and not any(p["capped"] for p in parts) and not bad,
        "explorations": [{k: p[k] for k in ("name", "kind", "states", "transitions", "depth", "fixpoint", "capped", "wall_s")}
                         for p in parts],
    }
    if spec["level"] == "fault_enumeration":
        cov["evaluations"] = cov["transitions"]
        cov["distinct_nontrivial"] = cov["states"]
        cov["rule"] = spec["rule"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": registry.ASSUMPTIONS + spec.get("assumptions", []) + notes,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if bad else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if bad:
        violation(prop, bad[0], bad[1], tier, bad[2])
        return 1
    for line in known_findings(prop):
        log(line)
    log("%s held: %d states, %d transitions explored in %.1f s (build %.1f s)" %
        (prop, cov["states"], cov["transitions"], time.time() - t0, t_build))
    return 0


def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                res.append("KNOWN-FINDING: " + line[len("known: "):].strip())
    return res


def replay(path):
    d = json.load(open(path))
    build([d["bin"]], d["serde"])
    base = ["--prop", d["property"], "--tier", d["tier"]]
    if d["job"] != "whole run":
        base += ["--only", d["job"], "--raw", d["raw"]]
    rc, out = run_bin(d["bin"], d["serde"], base, 900)
    log(out.rstrip())
    if rc == 0:
        log("not reproduced on the current tree")
        return 0
    log(describe(rc) if rc != 1 else "")
    log("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "--setup":
        for serde in (False, True):
            bins = sorted({b for p in registry.PROPS.values() for b, s in p["runs"] if s == serde})
            if bins:
                build(bins, serde)
        log("built")
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    sys.exit(check(a[0], tier))


main()
