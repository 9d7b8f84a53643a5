"""P13: external calls, inline assembly and writable static storage of every library configuration."""
import json, re, subprocess, concurrent.futures as cf
from . import build, kem
from .build import Broken
Finding = kem.Finding
PURE = {"memcpy", "memmove", "memset", "memcmp", "bcmp", "bzero", "explicit_bzero", "memset_explicit", "memset_s", "strlen", "abs", "labs", "__memcpy_chk", "__memmove_chk", "__memset_chk", "__stack_chk_fail", "abort", "__assert_fail", "randombytes"}
CONSTVARS = {"__stack_chk_guard", "__cpu_model", "_GLOBAL_OFFSET_TABLE_"}
BADMN = re.compile(r"^(?:lock\s+)?(syscall|sysenter|int|int3|rdtsc|rdtscp|rdpmc|rdrand|rdseed|cpuid|in|out|ins[bwl]?|outs[bwl]?|ldmxcsr|vldmxcsr|fldcw|xgetbv|wrfsbase|wrgsbase|rdfsbase|rdgsbase)\b")
RANDOMISED = re.compile(r"_(keypair|enc)$")

def asm_effects(impl, k, c):
    """(names, findings, instructions) of the disassembled assembly files"""
    names, fs, n, cur, line = [], [], 0, None, ""
    if not c["asm"]: return names, fs, n
    for l in open(c["asm"]):
        m = re.match(r"^[0-9a-f]+ <([^>]+)>:", l)
        if m: cur = m.group(1); names.append(cur); continue
        m = re.match(r"^\S*?([^/\s]+\.(?:S|inc)):(\d+)", l)
        if m: line = f"{m.group(1)}:{m.group(2)}"; continue
        m = re.match(r"^\s+[0-9a-f]+:\s+(.*)", l)
        if not m: continue
        t = m.group(1).strip(); n += 1
        if t.startswith("R_X86"): n -= 1; continue
        where = f"{line} in {cur}"
        if BADMN.match(t): fs.append(Finding("P13", f"kyber{256*k}/{impl}", where, "system-instruction", f"instruction '{t}' interacts with the system or reads a clock, counter or entropy source"))
        ops = t.split("#")[0].split(",")
        if "(%rip)" in ops[-1] and len(ops) > 1 and not t.startswith(("cmp", "test", "vptest", "ptest", "bt ")): fs.append(Finding("P13", f"kyber{256*k}/{impl}", where, "static-write", f"instruction '{t}' writes static storage"))
        if re.search(r"%(fs|gs):", t): fs.append(Finding("P13", f"kyber{256*k}/{impl}", where, "thread-storage", f"instruction '{t}' uses thread-local storage"))
    return names, fs, n

def check(work, tier):
    from check import CONF
    work.compile(CONF)
    fs, unknown = [], []
    cov = dict(configurations=[], functions=0, call_edges=0, ir_instructions=0, asm_instructions=0, external_call_sites=0, inline_asm_sites=0, writable_static_objects=0)
    def one(cfg):
        c = work.configs[cfg]; names, f, n = asm_effects(*cfg, c)
        p = subprocess.run([build.KYAN, "effects", "--asmnames", ",".join(names), "--"] + c["bc"], capture_output=True, text=True, timeout=600)
        try: return cfg, json.loads(p.stdout), f, n
        except ValueError: return cfg, None, [f"{cfg}: analyser exit {p.returncode}: {p.stderr[-300:]}"], 0
    with cf.ThreadPoolExecutor(build.JOBS) as ex: res = list(ex.map(one, CONF))
    for (impl, k), d, f, n in res:
        name = f"kyber{256*k}/{impl}"
        if d is None: unknown += f; continue
        fs += f; add = lambda w, r, m: fs.append(Finding("P13", name, w, r, m))
        pre = f"pqcrystals_kyber{256*k}_{impl}_"
        for e in kem.ENTRIES:
            if pre + e not in d["defined"]: unknown.append(f"{name}: entry point {pre+e} is not defined")
        for x in d["external_calls"]:
            inrb = x["fn"] == "randombytes" or x["where"].startswith("randombytes.c")
            if inrb or x["callee"] in PURE and x["callee"] != "randombytes": continue
            if x["callee"] == "randombytes": continue
            add(x["where"], "external-call", f"{x['fn']} calls {x['callee']} (reached from {' '.join(x['roots'].split()[:3])})")
        # who obtains random bytes
        for x in d["external_calls"]:
            if x["fn"] != "randombytes" and x["callee"] != "randombytes": continue
            for r in x["roots"].split():
                if r != "randombytes" and not RANDOMISED.search(r): add(x["where"], "hidden-randomness", f"{r} obtains random bytes although it is documented as a function of its arguments")
        for x in d["inline_asm"]:
            for t in re.split(r"[\n;]", x["callee"]):
                t = t.strip()
                if BADMN.match(t): add(x["where"], "system-instruction", f"inline assembly '{t}' in {x['fn']} interacts with the system or reads a clock, counter or entropy source")
        for x in d["external_variables"]:
            if x["callee"] not in CONSTVARS: add(x["where"], "external-variable", f"{x['fn']} uses variable {x['callee']} defined outside the library")
        for x in d["static_writes"]: add(x["where"], "static-write", f"{x['fn']} modifies static object {x['var']} ({x['how']}): state is kept between calls and shared between threads")
        unknown += [f"{name}: {u}" for u in d["unresolved"]]
        cov["configurations"].append(name)
        for a, b in (("functions", "functions"), ("call_edges", "call_edges"), ("ir_instructions", "instructions")): cov[a] += d[b]
        cov["asm_instructions"] += n; cov["external_call_sites"] += len(d["external_calls"]); cov["inline_asm_sites"] += len(d["inline_asm"]); cov["writable_static_objects"] += len(d["writable_static_objects"])
    if not cov["functions"]: unknown.append("no function analysed")
    return fs, unknown, cov

CHECKS = {"P13": check}
EXPL = {"P13": "Call graph and flow-insensitive mod analysis over all functions of all six library configurations (IR in SSA form plus disassembly): external call sites, inline assembly, system instructions, writes to static storage, and reachability of the random source from the deterministic calls."}
