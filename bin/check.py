#!/usr/bin/env python3
"""check.py ID quick|thorough : decide one property.

Builds the scenario programs from /repo's working tree, runs the exhaustive
explorations listed for the property in bin/plan.py, writes evidence/<ID>.json,
prints VIOLATION / KNOWN-FINDING lines and exits 0 / 1 (2: no answer)."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import build, plan

EV = os.environ.get("VP_EVID", os.path.join(V, "evidence"))
KNOWN = os.path.join(V, "KNOWN_FINDINGS.txt")

def known_findings(pid):
    """Lines `known: property=<id> scenario=<name> match=<regex> :: text`."""
    out = []
    for l in open(KNOWN):
        m = re.match(r"known: property=(\S+) scenario=(\S+) match=(.*?) :: (.*)$", l.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

def run(cmd, out, limit):
    try: os.unlink(out)
    except OSError: pass
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        txt, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        txt, rc = (e.stdout or b"").decode("utf8", "replace"), 124
    try: d = json.load(open(out))
    except Exception: d = None
    return rc, txt, d

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    limit = 820 if tier == "quick" else float(os.environ.get("VP_LIMIT", 6 * 3600))
    p = plan.PLAN[pid]
    items = plan.items(pid, tier)
    bins = sorted({i["bin"] for i in items})
    if build.main(bins):
        print(f"ERROR property={pid}: /repo's tree does not build for the checker"); return 2
    os.makedirs(EV + "/replay", exist_ok=True)
    known = known_findings(pid)
    parts, viol, samples, found, errors = [], [], [], [], []
    for it in items:
        left = limit - (time.time() - t0)
        if left < 5:
            parts.append({"scenario": it["scn"], "skipped": "time limit of the tier"}); continue
        b = os.path.join(build.B, it["bin"])
        rep = f"{EV}/replay/{pid}_{it['scn']}.txt"
        out = f"{EV}/replay/{pid}_{it['scn']}.json"
        bud = min(it["budget"], left - 4)
        cmd = [b, it["scn"], "-b", str(int(max(1, bud))), "--replay-out", rep, "--out", out] + it["args"]
        for attempt in (0, 1):
            rc, txt, d = run(cmd, out, bud + 60)
            if d is None:
                if attempt: errors.append(f"{it['scn']}: no result (rc={rc}) {txt[-400:]}")
                continue
            if not d["violation"]: break
            # a violation must reproduce from its recorded schedule/case
            rr, rtxt, rd = run([b, it["scn"], "--replay", rep, "--out", out + ".r"] + it["args"], out + ".r", 120)
            try: os.unlink(out + ".r")
            except OSError: pass
            if rr == 1: d["replayed"] = True; break
            d["replayed"] = False
        if d is None: continue
        for f in d.get("findings", []):
            k = [x for x in known if x[0] == it["scn"] and x[1].search(f)]
            if k: found.append((it["scn"], k[0][2]))
            else: viol.append((it["scn"], f, rep))
        if d["violation"]:
            msg = d.get("message") or ""
            k = [x for x in known if x[0] == it["scn"] and x[1].search(msg)]
            if k: found.append((it["scn"], k[0][2]))
            else: viol.append((it["scn"], msg, rep))
        s = d.pop("samples", None)
        if s: samples += [f"{it['scn']}: {x}" for x in s[:2]]
        parts.append({k: v for k, v in d.items() if k not in ("message",) or d["violation"]})
        try: os.unlink(out)
        except OSError: pass
        if viol: break
    tot = lambda k: sum(int(x.get(k, 0) or 0) for x in parts)
    ran = [x for x in parts if "skipped" not in x]
    cov = {
        "states": tot("states"), "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("executions"),
        "schedules_or_cases_run_to_the_end": tot("completed_executions"),
        "exhaustive": bool(ran) and len(ran) == len(parts) and not viol and not errors and all(x.get("complete") and not x.get("diverged") for x in ran),
        "rule": p.get("rule", plan.RULE),
        "samples": samples[:24] or ["-"],
        "scenarios": parts,
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": cov, "assumptions": p.get("assume", []) + plan.ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(f"{EV}/{pid}.json", "w"), indent=1)
    for scn, t in sorted(set(found)): print(f"KNOWN-FINDING: property={pid} {t}")
    for scn, msg, rep in viol:
        print(f"  {scn}: {msg[:1500]}")
        print(f"VIOLATION property={pid} replay={rep}")
    if viol: return 1
    for e in errors: print(f"ERROR property={pid} {e}")
    if errors: return 2
    print(f"OK property={pid} tier={tier} scenarios={len(ran)} states={cov['states']} transitions={cov['transitions']} executions={cov['traces_validated_against_impl']} exhaustive={cov['exhaustive']} wall={ev['wall_s']}s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
