#!/usr/bin/env python3
"""Decides one property on /repo's current tree.

  run_check.py ID                 (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  run_check.py --replay ID FILE   re-runs one recorded failing input

1. The contracts of the property's functions are proved from /repo's current source (tools/prove.py).
2. The executable form of the property is run against the real code (harness/): it replays a failed
   obligation as a concrete input, and is the bounded stand-in for what is not under contract.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
FLAGS = ["-std=c++17", "-O1", "-w", "-D_GLIBCXX_DEBUG", "-Descaped_key=unescaped_key", "-I" + REPO + "/include"]
LIBS = ["-lsimdjson", "-licuuc", "-licui18n"]
FILES = {"h_utils": "C01 C02 C03", "h_post": "C05 C07", "h_bytes": "C06", "h_pretok": "C08 C09",
         "h_model": "C10 C11 C12 C13 C14", "h_added": "C15 C16", "h_decode": "C17 C18",
         "h_norm": "C19 C20 C21 C26", "h_e2e": "C04 C22 C23 C24 C25 C27"}
FILE_OF = {p: f for f, ps in FILES.items() for p in ps.split()}


def build(prop, d):
    """Compiles /repo's sources and the property's harness into d; returns (binary or None, message)."""
    srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
    hs = [os.path.join(HERE, "harness", f + ".cpp") for f in ("h_main", FILE_OF[prop])]
    jobs = []
    for i, s in enumerate(srcs + hs):
        o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(s)[:-4]))
        jobs.append((s, o, subprocess.Popen(["g++"] + FLAGS + ["-c", s, "-o", o], stdout=subprocess.DEVNULL,
                                            stderr=subprocess.PIPE, text=True)))
    bad = []
    for s, o, p in jobs:
        err = p.communicate()[1]
        if p.returncode:
            bad.append(s + ": " + " | ".join([l for l in err.splitlines() if "error" in l][:2])[:400])
    if bad:
        return None, "does not compile: " + "; ".join(bad)
    out = os.path.join(d, "harness")
    r = subprocess.run(["g++"] + [o for _, o, _ in jobs] + LIBS + ["-o", out], capture_output=True, text=True)
    if r.returncode:
        return None, "does not link: " + r.stderr[:400]
    return out, ""


def known_findings(prop):
    """(files of known failing inputs, lines to print) for a property."""
    files, lines = [], []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                _, _, f, what = l.split(" ", 3)
                files.append(os.path.join(HERE, "known", f))
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, what))
    return files, lines


def explore(prop, binary, seed, secs, tier, replay, known):
    r = subprocess.run([binary, "explore", prop, str(seed), str(secs), tier, replay] + known, capture_output=True,
                       text=True, errors="replace", timeout=secs * 4 + 200)
    o = {"cases": 0, "nontrivial": 0, "rule": "", "sample": [], "failed": None, "rc": r.returncode}
    for l in r.stdout.splitlines():
        k, _, v = l.partition(" ")
        if k in ("cases", "nontrivial"):
            o[k] = int(v)
        elif k == "rule":
            o[k] = v
        elif k == "failed":
            o[k] = v
        elif k == "sample":
            o[k].append(v)
    return o


def samples(lines):
    out, cur = [], []
    for l in lines + [""]:
        if l == "":
            if cur:
                out.append(" ".join(cur)[:1500])
            cur = []
        else:
            cur.append(l)
    return out


def main():
    if sys.argv[1] == "--replay":
        prop, f = sys.argv[2:4]
        text = open(f, errors="replace").read()
        if "\n" in text and text.startswith("# failed obligation"):
            sys.stdout.write(text)
            return 1
        d = tempfile.mkdtemp(prefix="verif_")
        try:
            b, msg = build(prop, d)
            if not b:
                print(msg)
                return 2
            return subprocess.run([b, "replay", prop, f]).returncode
        finally:
            shutil.rmtree(d)
    prop = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    replay = os.path.join(ev_dir, "replay", prop + ".replay")
    if os.path.exists(replay):
        os.remove(replay)
    files, lines = known_findings(prop)
    for l in lines:
        print(l)
    d = tempfile.mkdtemp(prefix="verif_")
    proof = None
    try:
        # --- proof ---
        try:
            import prove
            proof = prove.prove(prop, REPO, d, tier)
        except Exception:
            proof = {"status": "undecided", "why": "internal: " + traceback.format_exc()[-1500:]}
        # --- the executable property on the real code ---
        try:
            binary, msg = build(prop, d)
        except Exception:
            binary, msg = None, traceback.format_exc()[-500:]
        run = None
        if binary:
            secs = float(os.environ.get("VERIF_SECS", 0)) or (25 if tier == "quick" else 400)
            if proof.get("status") in ("failed", "undecided"):
                secs *= 2
            try:
                run = explore(prop, binary, seed, secs, tier, replay, files)
            except Exception:
                msg = traceback.format_exc()[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    violation = None
    if run and run["rc"] == 10 and run["failed"]:
        violation = "VIOLATION property=%s replay=%s" % (prop, replay)
        print("failing input: " + run["failed"][:1000])
    elif proof.get("status") == "failed":
        with open(replay, "w") as f:
            f.write("# failed obligation of property %s\n" % prop)
            for o in proof["failed"]:
                f.write(o + "\n")
            f.write("\n# output of the verifier\n" + proof.get("output", "") + "\n")
        for o in proof["failed"][:10]:
            print("failed obligation: " + o)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    if not run:
        print("the executable property was not run: " + msg[:500])
    if proof.get("status") == "undecided":
        print("proof undecided (bounded stand-in only): " + proof.get("why", "")[:1500])
    cov = {"evaluations": run["cases"] if run else 0, "distinct_nontrivial": run["nontrivial"] if run else 0,
           "rule": (run["rule"] if run else "") or "harness not run: " + msg,
           "samples": samples(run["sample"]) if run else []}
    if not cov["samples"]:
        cov["samples"] = ["none recorded"]
    level = "exploration"
    assumptions = []
    if proof.get("level") == "proof":
        level = "proof"
        cov["obligations"] = proof.get("obligations", 0)
        cov["discharged"] = proof.get("discharged", 0)
        cov["checker_cmd"] = proof.get("checker_cmd", "")
        cov["trusted_base"] = proof.get("trusted", [])
    cov["proof"] = {k: v for k, v in proof.items() if k not in ("trusted", "output", "assumptions")}
    assumptions += proof.get("assumptions", [])
    cov["bounded_part"] = ("the executable property on the real code: %d cases, seed %d, until a time limit; "
                           "bounded, not counted as proved" % (cov["evaluations"], seed))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        print(violation)
        return 1
    print("%s holds on everything explored: proof %s, %d cases, %.1f s" % (
        prop, proof.get("status"), cov["evaluations"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
