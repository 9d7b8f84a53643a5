"""Runs the abstract interpreter on the KEM entry points and turns its reports into per-property verdicts."""
import json, os, subprocess, collections, concurrent.futures as cf
from . import build

IMPLS, RANKS = ("ref", "avx2"), (2, 3, 4)
ENTRIES = ("keypair_derand", "enc_derand", "dec", "keypair", "enc")

class Run:
    def __init__(self, impl, k, entry, *flags):
        self.impl, self.k, self.entry, self.flags = impl, k, entry, flags
        self.d = None; self.error = None; self.hidden = ()
    @property
    def name(self): return f"kyber{256*self.k}/{self.impl}/{self.entry}" + ("".join("[" + f[2:] + "]" for f in self.flags))
    @property
    def full(self): return not self.flags

def cost(r):
    c = {"dec": 1.0, "enc_derand": .9, "enc": .9, "keypair_derand": .95, "keypair": .95}[r.entry] * r.k * (2 if r.impl == "avx2" else 1)
    return c if not ({"--isolate", "--hook-derand"} & set(r.flags)) else .1

def execute(work, runs, timeout=700):
    def one(r):
        c = work.configs[(r.impl, r.k)]
        cmd = [build.KYAN, "kem", "--impl", r.impl, "--k", str(r.k), "--entry", r.entry, *r.flags] + (["--hidden", ",".join(r.hidden)] if r.hidden else [])
        if c["asm"]: cmd += ["--asm", c["asm"]]
        try:
            p = subprocess.run(cmd + ["--"] + c["bc"], capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            r.error = f"{r.name}: analysis did not finish within {timeout} s"; return
        try: r.d = json.loads(p.stdout)
        except ValueError: r.error = f"{r.name}: analyser exit {p.returncode}: {(p.stderr or p.stdout)[-400:]}"
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        list(ex.map(one, sorted(runs, key=cost, reverse=True)))
    again = with_history(runs, lambda r: (r.impl, r.k))
    if again: execute(work, again, timeout)
    return runs

def with_history(runs, group):
    """the analyses to repeat because an object that outlives the call is written: it may have any content when the next call starts"""
    names = collections.defaultdict(set)
    for r in runs:
        if r.d: names[group(r)].update(r.d.get("globals_written", ()))
    again = [r for r in runs if names[group(r)] and set(r.hidden) != names[group(r)]]
    for r in again: r.hidden = tuple(sorted(names[group(r)]))
    return again

EVENTS = {
 "P01": {"oob-read", "oob-write", "null-deref", "wild-pointer", "use-after-scope", "misaligned", "uninit-address", "abi"},
 "P02": {"signed-overflow", "shift-range", "div-by-zero", "lane-wrap", "coeff-trunc"},
 "P03": {"secret-branch", "secret-addr", "secret-length", "secret-shift", "secret-vartime", "secret-matrix-seed"},
 "P13": {"ext-call", "global-write"},
 "P14": {"uninit-branch", "uninit-use", "uninit-address", "uninit-output"},
 "P15": {"abort", "trap", "no-return"},
}
KNOWN_EVENTS = set().union(*EVENTS.values()) | {"write-const", "hash-protocol", "hash-state", "undefined-global"}

Finding = collections.namedtuple("Finding", "prop config where rule msg")

def sampler_event(k): return k.startswith("sampler-")

def findings(runs):
    """-> (list of Finding, list of unresolved analysis failures)"""
    out, unknown = [], []
    add = lambda p, r, w, rule, m: out.append(Finding(p, r.name, w, rule, m))
    for r in runs:
        if r.error: unknown.append(r.error); continue
        d = r.d
        isolate = "--isolate" in r.flags
        for e in d["events"]:
            k = e["kind"]
            if isolate and k.startswith("secret-"): continue      # the substituted layer does not mark published values
            for p, ks in EVENTS.items():
                if k in ks: add(p, r, e["where"], k, e["msg"])
            if k == "write-const": add("P14" if "object argument" in e["msg"] else "P01", r, e["where"], k, e["msg"])
            if k in ("hash-protocol", "hash-state"):
                w = e["where"] + e["msg"]
                p = "P07" if "gen_matrix" in w else "P08" if "getnoise" in w or "_prf" in w else "P04" if "rkprf" in w else "P05"
                add(p, r, e["where"], k, e["msg"])
                if k == "hash-state": add("P14", r, e["where"], k, e["msg"])
            if sampler_event(k): add("P07", r, e["where"], k, e["msg"])
            if k == "undefined-global": unknown.append(f"{r.name}: {e['msg']}")
            if k not in KNOWN_EVENTS and not sampler_event(k): unknown.append(f"{r.name}: unclassified event {k}: {e['msg']}")
        for k, v in d.items():
            if k.startswith("modified_"): add("P14", r, d.get("entry_point", r.name), "input-modified", f"{v} byte(s) of input buffer {k[9:]} are written")
            if k.startswith("unwritten_"): add("P14", r, d.get("entry_point", r.name), "output-unwritten", f"{v} byte(s) of output buffer {k[10:]} are left unwritten or uninitialised")
        if d["aborted"]:
            if not any(e["kind"] in ("abort", "trap", "no-return") for e in d["events"]): unknown.append(f"{r.name}: {d['abort']}")
            continue
        if not d.get("returns_zero"): add("P15", r, r.name, "return-value", f"return value is {d.get('return_value')}, not the constant 0")
        if r.entry in ("keypair", "enc"):
            want = 64 if r.entry == "keypair" else 32
            if sum(d["randombytes_lengths"]) != want: add("P05", r, r.name, "fresh-randomness", f"requests {d['randombytes_lengths']} random bytes instead of {want}")
    out += attribute(runs)
    out += siblings(runs)
    return out, unknown

def attribute(runs):
    """For every result that differs from the specification, the properties shown broken."""
    out = []
    iso = {(r.impl, r.k, r.entry): r for r in runs if "--isolate" in r.flags and "--honest" not in r.flags and r.d and not r.d["aborted"]}
    mism = lambda r: bool(r and r.d and not r.d["aborted"] and r.d["mismatches"])
    def text(r): return "; ".join(f"{m['out']}: {m['bits']} bit(s) differ from the specification, bytes {m['ranges'][:3]}" for m in r.d["mismatches"])
    kem = {"dec": "P04"}
    for r in runs:
        if not mism(r): continue
        d, t = r.d, text(r)
        if d.get("external_hash_inputs") or any(m.get("ext") for m in d["mismatches"]):
            what = "random bytes drawn by a function documented as deterministic" if not r.hidden else "what an earlier call left in " + ", ".join(x.split(".", 1)[-1] for x in r.hidden[:4])
            out.append(Finding("P14", r.name, r.name, "hidden-input", f"the result depends on {what}; {t}"))
        kemprop = kem.get(r.entry, "P05")
        if "--honest" in r.flags:
            out.append(Finding("P18", r.name, r.name, "honest-decapsulation", f"decapsulation of an encapsulated ciphertext with a generated key does not return the encapsulated secret although decryption recovers the message: {t}")); continue
        if "--isolate" in r.flags or "--hook-derand" in r.flags:
            out.append(Finding(kemprop, r.name, r.name, "kem-layer", f"with the encryption layer replaced by its specification the result is still wrong: {t}")); continue
        found = {}
        for fn, c in d["contracts"].items():
            if c["failed"]:
                found[c["prop"]] = (c["where"], f"contract of {fn}", f"{c['msg']} ({c['failed']} of {c['checked']} calls); {t}")
                if c["precondition"] == c["failed"]: found["P06"] = (c["where"], f"operand range of {fn}", f"argument outside the range the function is specified for; {t}")
        if mism(iso.get((r.impl, r.k, r.entry))): found.setdefault(kemprop, (r.name, "kem-layer", t))
        miss = d["missing_hashes"]
        if not any(p in found for p in ("P06", "P07", "P08", "P09")) and miss:
            if any(m[0] in "GH" for m in miss):
                if r.entry != "dec": found["P05"] = (r.name, "hash input", f"no call computes {', '.join(miss[:3])}; {t}")
            else:
                for m in miss:
                    if m == "prf-seed" and kemprop not in found: found[kemprop] = (r.name, "noise seed", f"noise is not derived from the specified seed; {t}")
                    if m.startswith("prf nonce"): found["P08"] = (r.name, "noise nonce", f"no noise polynomial is derived with {', '.join(x for x in miss if x.startswith('prf'))[:80]}; {t}")
                    if m == "xof-seed" or m.startswith("xof "): found["P07"] = (r.name, "matrix seed", f"no XOF call for {', '.join(x for x in miss if x.startswith('xof'))[:80]}; {t}")
        flags = d["gen_matrix_flags"]
        if flags and not found and any(bool(f) != (r.entry not in ("keypair", "keypair_derand")) for f in flags):
            found["P07"] = (r.name, "transposition", f"matrix requested with transposed={flags}; {t}")
        if not found and r.entry in ("keypair", "enc"):
            s = [x for x in runs if x.impl == r.impl and x.k == r.k and x.entry == r.entry + "_derand" and not x.flags]
            if s and not mism(s[0]): found["P05"] = (r.name, "randomised call", f"differs from the seeded call on the random bytes; {t}")
        if not found:   # the building blocks are right, their composition is not
            for p in ("P06", "P08", "P09"): found[p] = (r.name, "composition", f"every building block meets its contract but the composed result is wrong: {t}")
        for p, (w, rule, m) in found.items(): out.append(Finding(p, r.name, w, rule, m))
    return out

PUBLISHED = {512: 138.8, 768: 164.8, 1024: 174.8}

def failure_bound(fs):
    """P18: the tail of the specified error distribution, and that the code computes that distribution and decodes it."""
    out = []
    p = subprocess.run([build.KYAN, "prob"], capture_output=True, text=True)
    try: d = json.loads(p.stdout)
    except ValueError: return [], [f"failure bound not computed: {p.stderr[-300:]}"], {}
    for n, b in PUBLISHED.items():
        if abs(d[f"mass_{n}"] - 1) > 1e-6: return [], [f"distribution for {n} does not sum to 1"], {}
        if d[f"log2_failure_{n}"] > -b: out.append(Finding("P18", f"kyber{n}", "parameters", "failure-bound", f"failure probability 2^{d[f'log2_failure_{n}']} exceeds 2^-{b}"))
    for f in fs:
        # the encryption layer deviates from the scheme the bound is computed for
        if f.prop in ("P06", "P08", "P09") or (f.prop == "P07" and f.rule in ("transposition", "matrix seed")):
            if f.rule in KNOWN_EVENTS or sampler_event(f.rule): continue
            out.append(Finding("P18", f.config, f.where, "noise model: " + f.rule, "the computed values do not follow the scheme whose failure probability is bounded: " + f.msg))
    return out, [], {f"log2_failure_bound_{n}": d[f"log2_failure_{n}"] for n in PUBLISHED}

def siblings(runs):
    out, by = [], {}
    for r in runs:
        if r.d and not r.d["aborted"]: by[(r.k, r.entry, r.flags, r.impl)] = r
    for (k, e, f, i), r in by.items():
        if i != "ref": continue
        o = by.get((k, e, f, "avx2"))
        if not o: continue
        a, b = r.d.get("digests", {}), o.d.get("digests", {})
        for n in sorted(set(a) | set(b)):
            if a.get(n) != b.get(n): out.append(Finding("P17", f"kyber{256*k}/{e}", f"{r.name} vs {o.name}", "sibling-disagreement", f"output {n} is a different function of the inputs in the two implementations"))
    return out
