"""P19: the deterministic generator behind the NIST known-answer files."""
import glob, json, os, subprocess
from . import build, kem
from .build import Broken
Finding = kem.Finding
MEMORY = ("oob", "uninit", "write-const", "null", "wild", "use-after", "misaligned", "signed-overflow", "shift-range", "div-by-zero", "aes-protocol", "no-return", "abort", "trap")

def check(work, tier):
    fs, unknown, cov = [], [], dict(source_files=[], cases_per_function={}, state_and_length_cases=0, output_bits_compared=0, aes_blocks_modelled=0, branches=0, memory_accesses=0, steps=0)
    dirs = sorted({os.path.realpath(d) for i in ("ref", "avx2") for d in glob.glob(f"{build.REPO}/{i}/nistkat") if os.path.exists(d + "/rng.c")})
    if not dirs: raise Broken("nistkat/rng.c not found")
    for n, d in enumerate(dirs):
        bcs = []
        for f in sorted(glob.glob(d + "/*.c")):
            o = f"{work.dir}/nk{n}_{os.path.basename(f)[:-2]}.bc"
            r = subprocess.run(["clang"] + work.BASE + ["-DKYBER_K=2", os.path.basename(f), "-o", o], cwd=d, capture_output=True, text=True)
            if r.returncode:
                if os.path.basename(f) == "rng.c": raise Broken("nistkat/rng.c does not compile: " + r.stderr[-300:])
                continue
            bcs.append(o); cov["source_files"].append(os.path.relpath(f, build.REPO))
        p = subprocess.run([build.KYAN, "drbg", "--tier", tier, "--"] + bcs, capture_output=True, text=True, timeout=600)
        try: r = json.loads(p.stdout)
        except ValueError: unknown.append(f"nistkat: analyser exit {p.returncode}: {p.stderr[-300:]}"); continue
        name = os.path.relpath(d, build.REPO)
        for b in r["bad"]: fs.append(Finding("P19", name, b["fn"], "ctr-drbg", b["what"]))
        for e in r["events"]:
            if e["kind"].startswith(MEMORY): fs.append(Finding("P19", name, e["where"], e["kind"], e["msg"]))
            elif e["kind"] in ("ext-call", "undefined-global"): unknown.append(f"{name}: {e['msg']}")
        unknown += [f"{name}: {u}" for u in r["unresolved"]]
        if r["aborted"] and not any(e["kind"] in ("abort", "trap", "no-return") for e in r["events"]): unknown.append(f"{name}: {r['abort']}")
        for f, c in r["cases"].items(): cov["cases_per_function"][f] = cov["cases_per_function"].get(f, 0) + c; cov["state_and_length_cases"] += c
        for a, b in (("output_bits_compared", "output_bits"), ("aes_blocks_modelled", "aes_blocks"), ("branches", "branches"), ("memory_accesses", "accesses"), ("steps", "steps")): cov[a] += r[b]
    return fs, unknown, cov

CHECKS = {"P19": check}
EXPL = {"P19": "Value numbering of the generator and the seed expander with AES-256 as an opaque function: the state space is partitioned by the reach of the counter's carry, every byte outside that reach is symbolic, and the output, the next key and the next counter are compared bit for bit with the SP 800-90A construction; each AES failure is followed to the end of the program."}
