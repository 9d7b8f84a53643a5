"""P10/P11: SHA-3, SHAKE and the four-way SHAKE; also the hash calls the KEM makes, on behalf of the KEM properties."""
import json, subprocess, collections, concurrent.futures as cf
from . import build, kem
from .build import Broken
Finding = kem.Finding

SCALAR = ("sha3_256", "sha3_512", "shake128", "shake256", "shake128_init", "shake128_absorb", "shake128_finalize", "shake128_squeeze", "shake128_absorb_once", "shake128_squeezeblocks",
          "shake256_init", "shake256_absorb", "shake256_finalize", "shake256_squeeze", "shake256_absorb_once", "shake256_squeezeblocks")
X4 = ("shake128x4", "shake256x4", "shake128x4_absorb_once", "shake256x4_absorb_once", "shake128x4_squeezeblocks", "shake256x4_squeezeblocks")
FULL10 = ["squeeze:shake128", "absorb:shake128", "squeeze:shake256", "absorb:shake256", "oneshot:shake128", "oneshot:shake256", "oneshot:sha3_512", "oneshot:sha3_256"]
FULL11 = [f"x4:{a}:{p}" for p in ("in", "out", "mix") for a in ("shake128", "shake256")]
KEMSETS = [("ref", "kem"), ("avx2", "kem+x4")]

class HRun:
    def __init__(self, impl, set_): self.impl, self.set, self.d, self.error, self.hidden = impl, set_, None, None, ()
    @property
    def name(self): return f"fips202/{self.impl}/{self.set}"

def files(work, impl):
    c = work.configs.get((impl, 2)) or work.configs[next(k for k in work.configs if k[0] == impl)]
    want = ("fips202.bc", "fips202x4.bc")
    return [b for b in c["bc"] if b.rsplit("/", 1)[1] in want or "/k4x_" in b], c

def lengths(work, impl, fns):
    """interval analysis of everything computed from a length parameter; returns (result, error)"""
    c = files(work, impl)[1]
    try: p = subprocess.run([build.KYAN, "length", "--functions", ",".join(fns), "--"] + c["bc"], capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired: return None, f"fips202/{impl}: length analysis did not finish"
    try: return json.loads(p.stdout), None
    except ValueError: return None, f"fips202/{impl}: length analysis exit {p.returncode}: {(p.stderr or p.stdout)[-300:]}"

def execute(work, runs, tier, timeout=800, thresholds={}):
    def one(r):
        bc, c = files(work, r.impl)
        if not bc: r.error = f"{r.name}: no hash sources found"; return
        # helper functions may have been moved to other translation units
        allbc = c["bc"]
        cmd = [build.KYAN, "hash", "--impl", r.impl, "--set", r.set, "--tier", tier] + (["--asm", c["asm"]] if c["asm"] else [])
        if r.hidden: cmd += ["--hidden", ",".join(r.hidden)]
        if thresholds.get(r.impl): cmd += ["--thresholds", ",".join(map(str, thresholds[r.impl]))]
        try: p = subprocess.run(cmd + ["--"] + allbc, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired: r.error = f"{r.name}: analysis did not finish within {timeout} s"; return
        try: r.d = json.loads(p.stdout)
        except ValueError: r.error = f"{r.name}: analyser exit {p.returncode}: {(p.stderr or p.stdout)[-400:]}"
    with cf.ThreadPoolExecutor(build.JOBS) as ex: list(ex.map(one, runs))
    again = kem.with_history(runs, lambda r: r.impl)
    if again: execute(work, again, tier, timeout, thresholds)
    return runs

def short(fn):
    for m in ("pqcrystals_kyber_fips202_ref_", "pqcrystals_kyber_fips202_avx2_", "pqcrystals_kyber_fips202x4_avx2_"):
        if fn.startswith(m): return fn[len(m):]
    return fn

def owner(fn):
    """KEM property resting on this hash function"""
    f = short(fn)
    if f.startswith("shake128"): return "P07"
    if f in ("shake256_absorb", "shake256_finalize", "shake256_squeeze", "shake256_init"): return "P04"
    if f.startswith("shake256"): return "P08"
    return "P05"

def findings(runs, kemprops):
    out, unknown = [], []
    for r in runs:
        if r.error: unknown.append(r.error); continue
        d = r.d
        x4 = "x4" in r.set
        if d["aborted"]: unknown.append(f"{r.name}: {d['abort']}")
        for m in d["missing_functions"]: unknown.append(f"{r.name}: function {m} is not defined")
        for b in d["bad"]:
            p = "P11" if "x4" in b["fn"] else "P10"
            out.append(Finding(p, r.name, b["fn"], "fips202", b["what"]))
            if kemprops: out.append(Finding(owner(b["fn"]), r.name, b["fn"], "fips202", "hash function used by the KEM is not the specified one: " + b["what"]))
        for e in d["events"]:
            k = e["kind"]
            for p, ks in kem.EVENTS.items():
                if k in ks: out.append(Finding(p, r.name, e["where"], k, e["msg"]))
            if k == "write-const": out.append(Finding("P14", r.name, e["where"], k, e["msg"]))
            if k.startswith(("oob", "uninit", "write-const", "null", "wild", "use-after", "misaligned")):
                for p in ("P10", "P11"):
                    if (p == "P11") == x4: out.append(Finding(p, r.name, e["where"], k, e["msg"]))
            if k == "undefined-global": unknown.append(f"{r.name}: {e['msg']}")
    # the same hash function must behave the same in both implementations
    if kemprops:
        bad = collections.defaultdict(dict)
        for r in runs:
            if r.d:
                for b in r.d["bad"]: bad[r.impl][short(b["fn"])] = (r, b)
        for i in ("ref", "avx2"):
            for f, (r, b) in bad[i].items():
                if short(b["fn"]) in ("sha3_256", "sha3_512") or owner(b["fn"]) == "P04":
                    if f in bad["avx2" if i == "ref" else "ref"]: continue      # wrong in the same way at both places
                out.append(Finding("P17", r.name, b["fn"], "fips202", "the implementations use different constructions for the same stream: " + b["what"]))
    return out, unknown

def check(prop):
    def run(work, tier):
        impls = ("ref", "avx2") if prop == "P10" else ("avx2",)
        work.compile([(i, 2) for i in impls])
        fs, unknown, thr, lc = [], [], {}, dict(length_obligations=0, length_functions=0, length_thresholds=[])
        for i in impls:
            pre = f"pqcrystals_kyber_fips202_{i}_" if prop == "P10" else f"pqcrystals_kyber_fips202x4_{i}_"
            d, err = lengths(work, i, [pre + f for f in (SCALAR if prop == "P10" else X4)])
            if err: unknown.append(err); continue
            for b in d["length_bad"]: fs.append(Finding(prop, f"fips202/{i}", b["where"] + " " + b["fn"], "length", b["what"]))
            thr[i] = [t for t in d["length_thresholds"] if 1 < t < 100000]
            lc["length_obligations"] += d["length_obligations"]; lc["length_functions"] += d["length_functions"]; lc["length_thresholds"] += d["length_thresholds"]
        runs = execute(work, [HRun(i, s) for s in (FULL10 if prop == "P10" else FULL11) for i in impls], tier, thresholds=thr)
        f2, u2 = findings(runs, False)
        return fs + [f for f in f2 if f.prop == prop], unknown + u2, dict(coverage(runs), **lc)
    return run

def coverage(runs):
    ok = [r for r in runs if r.d]; cases = collections.Counter()
    for r in ok:
        for f, n in r.d["cases"].items(): cases[f] += n
    return dict(hash_configurations=[r.name for r in ok], length_and_chunking_cases=sum(cases.values()), cases_per_function=dict(cases), hash_output_bits_compared=sum(r.d["compared_bits_hash"] for r in ok),
                permutation_calls_verified=sum(r.d["opaque_permutations"] for r in ok), permutations=sorted({p for r in ok for p in (r.d["permutation"], r.d["permutation_x4"]) if p}), hash_steps=sum(r.d["steps"] for r in ok))

CHECKS = {"P10": check("P10"), "P11": check("P11")}
EXPL = {
 "P10": "Bit-exact value numbering: the permutation is compared with FIPS 202 on 1600 symbolic bits; every sponge function is then interpreted abstractly for each enumerated length and chunking with symbolic data. An interval analysis shows that no length is truncated or outrun by a narrower counter, so the block-wise behaviour extends to all lengths.",
 "P11": "Bit-exact value numbering of the four-lane permutation and of every four-way function for each enumerated length with four symbolic inputs; interval analysis of the length arithmetic for all lengths.",
}
