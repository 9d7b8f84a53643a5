#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decides one property of /repo's current tree by static analysis."""
import sys, os, json, time, traceback, argparse
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from kcheck import build, kem, hashes
from kcheck.build import Broken

CONF = [(i, k) for i in kem.IMPLS for k in kem.RANKS]
E2E = {"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P14", "P15", "P17", "P18"}

def plan(prop, tier):
    R = kem.Run; runs = []
    for i, k in CONF:
        if tier == "thorough":
            runs += [R(i, k, e) for e in kem.ENTRIES] + [R(i, k, e, "--isolate") for e in ("keypair_derand", "enc_derand", "dec")] + ([R(i, k, "dec", "--isolate", "--honest")] if prop == "P18" else [])
            continue
        if prop == "P04": runs += [R(i, k, "dec"), R(i, k, "dec", "--isolate")]; continue
        iso = [R(i, k, e, "--isolate") for e in ("keypair_derand", "enc_derand", "dec")]
        wrap = [R(i, k, e, "--hook-derand") for e in ("keypair", "enc")]
        if prop == "P18": runs += [R(i, k, e) for e in ("keypair_derand", "dec")] + iso + [R(i, k, "dec", "--isolate", "--honest")]; continue
        if prop == "P05": runs += [R(i, k, "keypair_derand")] + iso[:2] + wrap; continue
        runs += [R(i, k, "keypair_derand"), R(i, k, "dec")] + iso + ([] if prop in ("P06", "P07", "P08", "P09") else wrap)
    return runs

def run_kem(prop, tier, work):
    runs = kem.execute(work, plan(prop, tier))
    need_matrix = prop in ("P07", "P15")
    # where the sampling loops could not be summarised, everything else is still decided with the matrix taken as specified
    if not need_matrix:
        redo = [r for r in runs if r.d and r.d["aborted"] and "--hook-matrix" not in r.flags and not r.flags]
        if redo:
            extra = kem.execute(work, [kem.Run(r.impl, r.k, r.entry, "--hook-matrix") for r in redo])
            for r, x in zip(redo, extra):
                if x.d and not x.d["aborted"]:
                    x.flags = (); x.assumed = r.d["abort"]; runs[runs.index(r)] = x
    return runs

def total(runs, key): return sum(r.d.get(key, 0) for r in runs if r.d)

def coverage_kem(prop, runs):
    ok = [r for r in runs if r.d]
    fns = sorted({f for r in ok for f in r.d["functions"]})
    c = dict(configurations=[r.name for r in ok], entry_point_analyses=len(ok), functions_analysed=len(fns), functions=fns,
             abstract_steps=total(ok, "steps"), assembly_instructions=total(ok, "asm_instructions"), value_nodes=total(ok, "nodes"), joins=total(ok, "joins"))
    con = {}
    for r in ok:
        for fn, x in r.d["contracts"].items():
            if x["prop"] == prop:
                y = con.setdefault(fn, [0, 0]); y[0] += x["checked"]; y[1] += x["failed"]
    if con: c["contracts"] = {k: dict(calls=v[0], failed=v[1]) for k, v in sorted(con.items())}
    if prop == "P01": c["memory_accesses_bounded"] = total(ok, "accesses")
    if prop == "P02": c["arithmetic_results_range_checked"] = total(ok, "arith")
    if prop == "P03": c["branches_checked"] = total(ok, "branches"); c["addresses_checked"] = total(ok, "accesses")
    if prop in ("P04", "P05", "P06", "P08", "P09", "P17", "P18"): c["output_bits_compared"] = total(ok, "compared_bits")
    if prop == "P07": c["candidates"] = total(ok, "candidates"); c["sampler_stores"] = total(ok, "sampler_stores"); c["loop_inductions"] = total(ok, "inductions"); c["streams"] = total(ok, "streams")
    if prop == "P14": c["loads_checked"] = total(ok, "loads"); c["buffers_checked"] = sum({"keypair_derand": 3, "enc_derand": 4, "dec": 3, "keypair": 2, "enc": 3}[r.entry] for r in ok)
    if prop == "P15": c["entry_points_returning_constant_zero"] = sum(bool(r.d.get("returns_zero")) for r in ok); c["loop_inductions"] = total(ok, "inductions")
    if prop == "P13": c["calls_resolved"] = total(ok, "calls")
    return c

EXPL = {
 "P01": "Abstract interpretation of the IR and disassembly built from the current sources: every load and store executed on any path of the analysed entry points has a target object and an offset interval inside it.",
 "P02": "Interval/value-table analysis: every signed operation, shift and 16-bit lane operation result is shown inside its storage for every input.",
 "P03": "Secrecy dataflow (exact on bits) from coins, secret key, message and noise to branch conditions, addresses, lengths, shift counts and divisions.",
 "P04": "Algebraic value numbering (residues mod q in F_q^8, bits in GF(2^128)) of the decapsulation result compared with the specified selection between the two keys.",
 "P05": "Algebraic value numbering of secret-key tail, hash inputs, coins and seeds compared with the specification.",
 "P06": "Algebraic value numbering of every packed coefficient compared with the module-lattice equations; contracts of ntt, inverse ntt, base multiplication, add, sub and reductions evaluated at every call.",
 "P07": "Rejection-sampling domain: the produced array is shown, by induction over the loop, to be the accepted 12-bit groups of the XOF stream in order; stream inputs compared with seed, column, row.",
 "P08": "Value numbering of noise polynomials against the centred binomial map of the PRF output; PRF inputs enumerated.",
 "P09": "Exhaustive value tables and value numbering of every coding and compression function on all residues and all encoded values.",
 "P14": "Initialisation and mod/ref analysis of caller buffers on every path.",
 "P15": "Constant propagation of return values, reachability of non-returning calls, loop induction on XOF consumption.",
 "P18": "The error distribution of the scheme is convolved exactly and its tail compared with the published bound; the code is shown, by value numbering, to compute exactly that scheme (equations, noise, matrix on both sides, compression, decoding), and decapsulation to return the encapsulated secret whenever decryption recovers the message.",
 "P17": "Equality of the algebraic value numbers of all outputs between the two implementations.",
}

def known():
    """entries: (property, key, text) of recorded, unrepaired defects"""
    out = []
    try:
        for l in open(f"{HERE}/known_findings.txt"):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            p, key, text = (x.strip() for x in l.split("|", 2)); out.append((p, key, text))
    except FileNotFoundError: pass
    return out

def decide(prop, tier):
    cov, extra_unknown, fs = {}, [], []
    build.analyser()
    with build.Work() as work:
        if prop in E2E:
            work.compile(CONF)
            hruns = [] if prop in ("P06", "P09", "P18") else hashes.execute(work, [hashes.HRun(*x) for x in hashes.KEMSETS], tier)
            runs = run_kem(prop, tier, work)
            f, unknown = kem.findings(runs)
            if prop == "P18": g, u, c = kem.failure_bound(f); f += g; unknown += u; cov.update(c)
            fs += [x for x in f if x.prop == prop]; extra_unknown += unknown
            cov.update(coverage_kem(prop, runs))
            if prop not in ("P06", "P09", "P18"):
                f, unknown = hashes.findings(hruns, True); fs += [x for x in f if x.prop == prop]; extra_unknown += unknown; cov.update(hashes.coverage(hruns))
        if prop in EXTRA:
            f, u, c = EXTRA[prop](work, tier); fs += f; extra_unknown += u; cov.update(c)
    return fs, extra_unknown, cov

EXTRA = {}
def register():
    import importlib
    for name in ("osrandom", "effects", "interface", "hashes", "drbg"):
        try: m = importlib.import_module("kcheck." + name)
        except ModuleNotFoundError as e:
            if name in str(e): continue
            raise
        EXTRA.update(m.CHECKS); EXPL.update(m.EXPL)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); a = ap.parse_args()
    prop, t0 = a.prop, time.time(); register()
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    try: fs, unknown, cov = decide(prop, a.tier)
    except Broken as e:
        print(f"ANALYSIS-BROKEN property={prop} {e}"); return 2
    kn = [k for k in known() if k[0] == prop]; new, old = [], {}
    for f in fs:
        hit = next((k for k in kn if k[1] in f"{f.rule}@{f.where}"), None)
        if hit: old[hit] = f
        else: new.append(f)
    for k in old: print(f"KNOWN-FINDING: property={prop} {k[2]}")
    seen, rep = set(), []
    for f in new:
        key = (f.where, f.rule)
        if key not in seen: seen.add(key); rep.append(f)
    replay = f"evidence/{prop}.replay.json"
    cov["explanation"] = EXPL.get(prop, "")
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(rep),
              assumptions=["clang's front end and objdump render the sources faithfully", "random interpretation: collision probability below 2^-60 per comparison"])
    json.dump(ev, open(f"{HERE}/evidence/{prop}.json", "w"), indent=1)
    for u in unknown[:10]: print("UNRESOLVED:", u)
    if rep:
        json.dump([f._asdict() for f in new], open(f"{HERE}/{replay}", "w"), indent=1)
        for f in rep[:20]: print(f"  {f.config}: {f.where}: [{f.rule}] {f.msg}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if unknown: print(f"NO-ANSWER property={prop}: {len(unknown)} analysis obligation(s) unresolved"); return 2
    n = {k: v for k, v in cov.items() if isinstance(v, int)}
    print(f"OK property={prop} {n} ({time.time()-t0:.1f} s)")
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
