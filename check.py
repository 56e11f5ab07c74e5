#!/usr/bin/env python3
"""Decides one property: check.py C07 [quick|thorough]

1. cargo kani proves every obligation of the property's contracts over the
   crate in /repo, rebuilt from its current working tree.
2. Each failed obligation is replayed natively with the verifier's values.
3. The executed contracts (native) run with VERIF_SEED.
See DESIGN.md."""
import hashlib, json, os, re, subprocess, sys, time
from pathlib import Path

V = Path(__file__).resolve().parent
CR = V / "contracts"
WORK = V / "work"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
FIND = V / "known_findings.txt"


def sh(cmd, timeout, cwd=CR):
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = None
    return rc, out, time.time() - t


def feats(prop, tier):
    return prop.lower() + (",deep" if tier == "thorough" else "")


KANI = ["cargo", "kani", "--lib", "--no-default-features", "--target-dir", str(V / "target" / "kani")]
NATIVE = V / "target" / "native"


FFI = {"C17", "C18", "C19", "C20"}
CRF = V / "contracts-ffi"
CRL = V / "contracts-loops"
LOOPS = json.loads((CRL / "obligations.json").read_text())


def kdir(prop):
    """narrow-ffi is verified through a mechanical copy (tools/extract_ffi.py)."""
    return CRF if prop in FFI else CR


def extract(prop):
    if prop in FFI:
        sh(["python3", str(V / "tools" / "extract_ffi.py"), "/repo/narrow-ffi", str(V / "work" / "narrow-ffi")], 60)


def kani_cmd(prop, tier, per):
    return KANI + ["--features", feats(prop, tier), "-j", "8", "--output-format=terse", "-Z", "unstable-options", "-Z", "stubbing", "--harness-timeout", f"{per}s"]


def loops(prop, limit):
    """Obligations with loop invariants, decided on a mechanical copy
    (tools/extract_loops.py): never an alarm by themselves, since a rewritten
    loop may need another invariant."""
    want = LOOPS.get(prop, {})
    if not want or limit < 60:
        return {n: ("undecided", ["not reached"], dict(checks=0, secs=0.0, msgs=[], where=[])) for n in want}, "", ""
    sh(["python3", str(V / "tools" / "extract_loops.py"), "/repo", str(WORK / "narrow-loops")], 60)
    cmd = KANI + ["--features", prop.lower(), "-j", "8", "--output-format=terse", "-Z", "unstable-options", "-Z", "stubbing", "--harness-timeout", f"{int(limit) - 30}s"]
    _, out, _ = sh(cmd, limit, CRL)
    res = parse_kani(out)
    ver = {}
    for n in want:
        r = res.get(n) or dict(status="undecided", checks=0, failed=0, cover=None, secs=0.0, msgs=["not reached"], where=[])
        v, why = classify("proof", r)
        ver[n] = (v, why, r)
    return ver, out, " ".join(cmd)


def native_build(features):
    return sh(["cargo", "build", "--offline", "--bin", "narrow-contracts", "--no-default-features", "--features", features, "--target-dir", str(NATIVE)], 600)


BIN = str(NATIVE / "debug" / "narrow-contracts")


def parse_kani(out):
    """harness -> dict(status, checks, failed, cover, secs, msgs)"""
    cur, res = {}, {}
    who, th = None, "0"
    for line in out.splitlines():
        line = line.strip()
        m = re.match(r"(?:Thread (\d+): ?)?(.*)$", line)
        if m.group(1) is not None:
            th = m.group(1)
            line = m.group(2)
            who = cur.get(th)
        if line.startswith("Checking harness "):
            name = line[len("Checking harness "):].rstrip(".").split("::")[-1]
            cur[th] = who = name
            res[name] = dict(status="undecided", checks=0, failed=0, cover=None, secs=0.0, msgs=[], where=[])
            continue
        if who is None:
            continue
        r = res[who]
        m = re.match(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            r["failed"], r["checks"] = int(m[1]), int(m[2])
        m = re.match(r"\*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            r["cover"] = int(m[1]) == int(m[2])
        if line.startswith("Failed Checks: "):
            r["msgs"].append(line[len("Failed Checks: "):])
        m = re.match(r'File: "(.*)", line (\d+), in (.*)', line)
        if m and r["msgs"]:
            r["where"].append(f"{m[1]}:{m[2]} {m[3]}")
        if line.startswith("VERIFICATION:-"):
            r["status"] = "ok" if "SUCCESSFUL" in line else "failed"
        m = re.match(r"Verification Time: ([\d.]+)s", line)
        if m:
            r["secs"] = float(m[1])
        if "timed out" in line or "CBMC failed" in line or "out of memory" in line:
            r["status"] = "undecided"
            r["msgs"].append(line)
    return res


UNDECIDED = re.compile(r"unwinding assertion|recursion unwinding|not currently supported|unsupported|Kani does not support|reached unsupported")
SAFETY = re.compile(r"dereference failure|pointer|misaligned|undefined|memcpy|memmove|double free|deallocated")


def classify(kind, r):
    """ok | violation | undecided, with the reasons that count."""
    if r["status"] == "ok":
        if r["checks"] == 0 or r["cover"] is not True:
            return "undecided", ["vacuous: the end of the obligation is unreachable"]
        return "ok", []
    if r["status"] == "undecided":
        return "undecided", r["msgs"] or ["no verdict (timeout or crash)"]
    if any(UNDECIDED.search(m) for m in r["msgs"]):
        # bound too small, or a construct outside the verifier: no verdict
        return "undecided", r["msgs"]
    if kind.endswith("_mp"):
        m = [x for x in r["msgs"] if "OB: " in x or (SAFETY.search(x) and "placeholder" not in x)]
        if m:
            return "violation", m
        if r["cover"] is not True:
            return "undecided", ["vacuous: every path panics"]
        return "ok", []
    if not r["msgs"]:
        return "undecided", ["failed without a failing check"]
    return "violation", r["msgs"]


def clean(m):
    m = re.search(r'OB: ", "(.*?)"\)', m) or re.search(r"OB: (.*)", m)
    return m[1] if m else None


def playbacks(out):
    res = []
    for blk in re.split(r"Concrete playback unit test for", out)[1:]:
        if "Check for `cover`" in blk.split("#[test]")[0]:
            continue
        m = re.search(r"vec!\[(.*?)\n    \];", blk, re.S)
        if not m:
            continue
        vals = [bytes(int(x) for x in v.split(",") if x.strip()) for v in re.findall(r"vec!\[([\d, ]*)\]", m[1])]
        res.append(",".join(v.hex() for v in vals if v))
    return res


def replay(name, vals):
    rc, out, _ = sh([BIN, "replay", name, vals], 60)
    return rc not in (0, None, 2), out.strip()


def scan(prop):
    """Mechanical list of what is assumed in the contract text."""
    out = []
    for f in (CR / "src" / f"{prop.lower()}.rs", CR / "src" / "store.rs", CR / "src" / "spec.rs"):
        if not f.exists():
            continue
        t = f.read_text()
        for pat, what in ((r"assume\(", "precondition assumed (assume)"), (r"unsafe", "unsafe in the harness"), (r"nd::stop\(\)", "path ended (stop)")):
            n = len(re.findall(pat, t))
            if n:
                out.append(f"{f.name}: {n} x {what}")
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    quick = tier == "quick"
    WORK.mkdir(exist_ok=True)
    (V / "evidence").mkdir(exist_ok=True)
    meta = json.loads((V / "levels.json").read_text())[prop]

    rc, out, _ = native_build(feats(prop, tier))
    if rc != 0:
        print(out[-4000:])
        print(f"ERROR: the contracts of {prop} do not build against /repo")
        return 2
    _, out, _ = sh([BIN, "list"], 60)
    obs = {o["name"]: o for o in map(json.loads, out.splitlines()) if o["prop"] == prop}
    want = [n for n, o in obs.items() if o["kind"] != "run" and (not quick or "deep" not in o["kind"])]

    def left():
        return max(20, 860 - (time.time() - t0))

    budget = {"quick": 6000, "thorough": 60000}[tier]
    nrun = sum(1 for o in obs.values() if o["kind"] == "run")
    if nrun:
        budget = max(500, min(budget, (16000 if quick else 100000) // max(1, (nrun + 7) // 8)))
    rc, out, nsecs = sh([BIN, "run", prop, str(seed), str(budget)], 150 if quick else 250)
    nres, crashed = [], None
    for l in out.splitlines():
        if l.startswith("{"):
            nres.append(json.loads(l))
    if rc != 0:
        crashed = f"native contracts ended abnormally (rc={rc}): {out[-500:]}"
        # find the obligation that ends the process
        for n in obs:
            r2, o2, _ = sh([BIN, "search", n, str(seed), "1500"], 60)
            if r2 not in (0,):
                nres.append(dict(name=n, prop=prop, kind=obs[n]["kind"], note="", cases=0, judged=0, fails=[dict(msg=f"process ended abnormally rc={r2}: {o2[-300:]}", vals="", search=True)]))
                break

    cmd = kani_cmd(prop, tier, 400)
    kout, ksecs, kres = "", 0.0, {}
    if want:
        extract(prop)
        rc, kout, ksecs = sh(cmd, min(560, left() - 60), kdir(prop))
        kres = parse_kani(kout)
    (WORK / f"{prop}.kani.log").write_text(kout)
    verdict = {}
    for n in want:
        r = kres.get(n) or dict(status="undecided", checks=0, failed=0, cover=None, secs=0.0, msgs=["not reached"], where=[])
        v, why = classify(obs[n]["kind"], r)
        verdict[n] = (v, why, r)

    loopv, lout, lcmd = loops(prop, min(360, left() - 130))
    (WORK / f"{prop}.loops.log").write_text(lout)

    # -------- violations
    viol = []  # (name, reasons, replay text, concrete?)
    bad = [n for n in want if verdict[n][0] == "violation"]
    nat = [(r, f) for r in nres for f in r["fails"][:1]]
    for r, f in nat:
        viol.append((r["name"], [f["msg"]], f["vals"], f["msg"], True))
    confirmed = bool(nat)
    lbad = [n for n in loopv if loopv[n][0] == "violation"]
    if lbad and not confirmed:
        # look longer for an input
        for n in [n for n in obs if obs[n]["kind"] == "run"][:4]:
            _, o, _ = sh([BIN, "search", n, str(seed + 11), "10000"], 40)
            try:
                f = json.loads(o.splitlines()[-1])["fails"]
            except Exception:
                f = []
            if f:
                viol.append((n, [f[0]["msg"]], f[0]["vals"], f[0]["msg"], True))
                confirmed = True
                break
    for n in lbad:
        loopv[n] = ("failed", loopv[n][1], loopv[n][2])
    for n in bad[:4]:
        if confirmed or left() < 150:
            break
        rc, o, _ = sh(KANI + ["--features", feats(prop, tier), "-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", f"{prop.lower()}::{n}", "-Z", "unstable-options", "-Z", "stubbing", "--harness-timeout", "100s"], 130, kdir(prop))
        for vals in playbacks(o):
            ok, text = replay(n, vals)
            if ok:
                viol.append((n, verdict[n][1], vals, text, True))
                confirmed = True
                break
    if bad and not confirmed:
        for n in bad[:3]:
            rc, o, _ = sh([BIN, "search", n, str(seed + 7), "8000"], 30)
            try:
                f = json.loads(o.splitlines()[-1])["fails"]
            except Exception:
                f = []
            if f:
                viol.append((n, verdict[n][1], f[0]["vals"], f[0]["msg"], True))
                confirmed = True
                break
    if bad and not confirmed:
        # contracts over call-outs into the source count only when confirmed
        for n in [n for n in bad if obs[n]["kind"].endswith("_cf")]:
            verdict[n] = ("undecided", ["failed, not confirmed by an execution"] + verdict[n][1], verdict[n][2])
        bad = [n for n in bad if not obs[n]["kind"].endswith("_cf")]
    if bad and not confirmed:
        n = bad[0]
        viol.append((n, verdict[n][1], None, "", False))

    # -------- known findings
    known = []
    for l in FIND.read_text().splitlines() if FIND.exists() else []:
        m = re.match(r"finding: property=(\S+) obligation=(\S+) failure=(.*?) :: (.*)", l)
        if m and m[1] == prop:
            known.append((m[2], m[3], m[4]))
    for n, f, text in known:
        print(f"KNOWN-FINDING: property={prop} {text}")
    viol = [x for x in viol if not any(x[0] == n and any(f in y for y in x[1]) for n, f, _ in known)]

    # -------- report
    ok = [n for n in want if verdict[n][0] == "ok"]
    und = [n for n in want if verdict[n][0] == "undecided"]
    line = None
    if viol:
        viol.sort(key=lambda x: not x[4])
        n, why, vals, text, conc = viol[0]
        rp = WORK / f"{prop}.replay.txt"
        body = [f"property   {prop}", f"obligation {n}", f"contract   {obs[n]['note']}", f"tree       /repo, working tree at {time.strftime('%F %T')}", "", "failed obligations reported by the verifier:"]
        for b in bad:
            r = verdict[b][2]
            body += [f"  {b} ({obs[b]['kind']}):"] + [f"    - {m}  {w}" for m, w in zip(r["msgs"], r["where"] + [""] * 9)]
        for b in lbad:
            r = loopv[b][2]
            body += [f"  {b} (loop invariant):"] + [f"    - {m}  {w}" for m, w in zip(r["msgs"], r["where"] + [""] * 9)]
        body += ["", "failing executed contracts:"] + [f"  {r['name']}: {f['msg']}" for r, f in nat] + [""]
        if conc:
            body += ["failing input (little-endian bytes of each value drawn, in order):", f"  {vals}", "", "replay against the real code:", f"  {BIN} " + (f"replay {n} {vals}" if vals or n in bad else f"search {n} {seed} 1500"), "", "outcome:", f"  {text}"]
        else:
            body += ["the verifier gives no input that fails natively; its output follows", "", kout[-20000:]]
        rp.write_text("\n".join(body) + "\n")
        line = f"VIOLATION property={prop} replay={rp}" + ("" if conc else " no-failing-input-found")
        print(f"{prop}: failed obligation {n}: {'; '.join((clean(w) or w) for w in why[:3])}")
    complete = [n for n in want if obs[n]["kind"].startswith("proof")]
    bnd = [n for n in want if not obs[n]["kind"].startswith("proof")]
    ev = dict(property=prop, tier=tier, seed=seed, level=meta["level"], wall_s=0.0, violations=len(viol), assumptions=meta["assumptions"] + COMMON, coverage={})
    c = ev["coverage"]
    c["explanation"] = meta["explanation"]
    c["functions_under_contract"] = meta["functions"]
    c["obligations"] = sum(verdict[n][2]["checks"] for n in complete)
    c["discharged"] = sum(verdict[n][2]["checks"] - (verdict[n][2]["failed"] if verdict[n][2]["status"] == "failed" else 0) for n in complete if verdict[n][2]["status"] != "undecided")
    c["checker_cmd"] = f"cd {kdir(prop)} && " + " ".join(cmd)
    c["backend"] = "Kani 0.68 (CBMC 6.x symbolic execution, CaDiCaL SAT), function by function"
    c["trusted_base"] = TRUSTED + scan(prop)
    c["contracts_proved"] = [dict(name=n, contract=obs[n]["note"], verdict=verdict[n][0], checks=verdict[n][2]["checks"], solver_s=round(verdict[n][2]["secs"], 1)) for n in complete]
    if loopv:
        lok = [n for n in loopv if loopv[n][0] == "ok"]
        c["contracts_loop_invariants"] = [dict(name=n, contract=LOOPS[prop][n], verdict=loopv[n][0], checks=loopv[n][2]["checks"], solver_s=round(loopv[n][2]["secs"], 1)) for n in loopv]
        c["obligations"] += sum(loopv[n][2]["checks"] for n in loopv)
        c["discharged"] += sum(loopv[n][2]["checks"] for n in lok)
        c["checker_cmd"] += f" ; python3 {V}/tools/extract_loops.py && cd {CRL} && {lcmd}"
    c["contracts_bounded"] = [dict(name=n, bound=obs[n]["note"], verdict=verdict[n][0], checks=verdict[n][2]["checks"], solver_s=round(verdict[n][2]["secs"], 1)) for n in bnd]
    c["bounded_checks"] = sum(verdict[n][2]["checks"] for n in bnd)
    c["undecided"] = [dict(name=n, why=verdict[n][1][:2]) for n in und] + [dict(name=n, why=loopv[n][1][:2]) for n in loopv if loopv[n][0] != "ok"]
    c["solver_s"] = round(sum(verdict[n][2]["secs"] for n in want) + sum(loopv[n][2]["secs"] for n in loopv), 1)
    c["verifier_wall_s"] = round(ksecs, 1)
    c["executed_contracts"] = [dict(name=r["name"], what=r["note"], executions=r["cases"], judged=r["judged"]) for r in nres if r["kind"] == "run"]
    c["obligations_also_executed"] = sum(r["judged"] for r in nres if r["kind"] != "run")
    if meta["level"] in ("exploration", "fault_enumeration"):
        c["evaluations"] = sum(r["cases"] for r in nres)
        c["distinct_nontrivial"] = sum(r["judged"] for r in nres)
        c["rule"] = meta.get("rule", "")
        c["samples"] = [f"{r['name']}: {r['note']}" for r in nres[:3]]
    extra = meta.get("extra")
    ev["wall_s"] = round(time.time() - t0, 1)
    (V / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop} {tier}: {len(ok)}/{len(want)} contracts accepted by the verifier ({len(complete)} complete, {len(bnd)} bounded), {len(und)} undecided, {sum(r['judged'] for r in nres)} executions judged, {ev['wall_s']} s")
    if loopv:
        print(f"{prop}: {sum(v[0] == 'ok' for v in loopv.values())}/{len(loopv)} contracts with loop invariants accepted")
    for n in loopv:
        if loopv[n][0] != "ok":
            print(f"UNDECIDED {n}: {loopv[n][0]}: {'; '.join(loopv[n][1][:2])[:200]}")
    for n in und:
        print(f"UNDECIDED {n}: {'; '.join(verdict[n][1][:2])[:200]}")
    if line:
        print(line)
        return 1
    if want and not ok and prop in FFI and nres:
        print("the extracted copy is not decided by the verifier: only the executed contracts count")
        return 0
    if want and not ok:
        print(kout[-3000:])
        print("ERROR: the verifier decided nothing")
        return 2
    return 0


COMMON = [
    "allocation of the verifier never fails except where a contract injects failures; heap objects of up to 2^40 items, 64-bit machine",
    "termination of loops is not proved beyond the unwinding assertions of bounded contracts",
    "the executed contracts are sampling: they confirm counterexamples and cover real storages, and are never counted as proved",
]
TRUSTED = [
    "Kani 0.68 / CBMC / CaDiCaL and rustc's MIR",
    "core and alloc library code is compiled into the proof, except intrinsics modelled by Kani",
    "the stand-in storages in contracts/src/store.rs implement the public Buffer and Collection traits as documented",
]

if __name__ == "__main__":
    sys.exit(main())
