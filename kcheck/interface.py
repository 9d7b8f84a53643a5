"""P16: compile-time witnesses for the public headers and a symbol-table audit of every library."""
import os, re, subprocess, glob, collections, concurrent.futures as cf
from . import build, kem
from .build import Broken
Finding = kem.Finding
SIZES = {2: (800, 1632, 768), 3: (1184, 2400, 1088), 4: (1568, 3168, 1568)}
PROTOS = dict(keypair_derand="int(*)(uint8_t*,uint8_t*,const uint8_t*)", keypair="int(*)(uint8_t*,uint8_t*)", enc_derand="int(*)(uint8_t*,uint8_t*,const uint8_t*,const uint8_t*)",
              enc="int(*)(uint8_t*,uint8_t*,const uint8_t*)", dec="int(*)(uint8_t*,const uint8_t*,const uint8_t*)")
HASH = {"sha3_256": "void(*)(uint8_t*,const uint8_t*,size_t)", "sha3_512": "void(*)(uint8_t*,const uint8_t*,size_t)"}
for a in ("128", "256"):
    HASH.update({f"shake{a}": "void(*)(uint8_t*,size_t,const uint8_t*,size_t)", f"shake{a}_init": "void(*)(keccak_state*)", f"shake{a}_absorb": "void(*)(keccak_state*,const uint8_t*,size_t)", f"shake{a}_finalize": "void(*)(keccak_state*)",
                 f"shake{a}_squeeze": "void(*)(uint8_t*,size_t,keccak_state*)", f"shake{a}_absorb_once": "void(*)(keccak_state*,const uint8_t*,size_t)", f"shake{a}_squeezeblocks": "void(*)(uint8_t*,size_t,keccak_state*)"})
IN4 = ",".join(["const uint8_t*"] * 4); OUT4 = ",".join(["uint8_t*"] * 4)
HASHX4 = {}
for a in ("128", "256"):
    HASHX4.update({f"shake{a}x4": f"void(*)({OUT4},size_t,{IN4},size_t)", f"shake{a}x4_absorb_once": f"void(*)(keccakx4_state*,{IN4},size_t)", f"shake{a}x4_squeezeblocks": f"void(*)({OUT4},size_t,keccakx4_state*)"})

def witnesses(impl):
    """(name, what it decides, source text, extra flags)"""
    out = []; inc = "#include <stddef.h>\n#include <stdint.h>\n"
    # 1. the public header alone: documented lengths and prototypes of all parameter sets
    t = '#include "api.h"\n#include <stddef.h>\n'
    for k, (pk, sk, ct) in SIZES.items():
        for pre in (f"pqcrystals_kyber{256*k}_", f"pqcrystals_kyber{256*k}_{impl}_"):
            for n, v in (("PUBLICKEYBYTES", pk), ("SECRETKEYBYTES", sk), ("CIPHERTEXTBYTES", ct), ("BYTES", 32), ("KEYPAIRCOINBYTES", 64), ("ENCCOINBYTES", 32)):
                t += f'_Static_assert({pre}{n} == {v}, "{pre}{n} is the documented length {v}");\n'
        for e, ty in PROTOS.items():
            f = f"pqcrystals_kyber{256*k}_{impl}_{e}"
            t += f'_Static_assert(_Generic(&{f}, {ty}: 1, default: 0), "{f} is declared as documented");\n'
    out.append(("api.h", t, []))
    # 2. per rank: implementation header and definitions against the public header
    for k, (pk, sk, ct) in SIZES.items():
        P = f"pqcrystals_kyber{256*k}_{impl}_"
        t = '#include "api.h"\n#include "kem.h"\n#include "params.h"\n'
        for a, b, v in (("CRYPTO_PUBLICKEYBYTES", "PUBLICKEYBYTES", pk), ("CRYPTO_SECRETKEYBYTES", "SECRETKEYBYTES", sk), ("CRYPTO_CIPHERTEXTBYTES", "CIPHERTEXTBYTES", ct), ("CRYPTO_BYTES", "BYTES", 32)):
            t += f'_Static_assert({a} == {P}{b}, "{a} of kem.h equals {P}{b} of api.h");\n_Static_assert({a} == {v}, "{a} is the documented length {v}");\n'
        for a, b in (("KYBER_PUBLICKEYBYTES", pk), ("KYBER_SECRETKEYBYTES", sk), ("KYBER_CIPHERTEXTBYTES", ct), ("KYBER_SSBYTES", 32)):
            t += f'_Static_assert({a} == {b}, "{a} of params.h is the documented length {b}");\n'
        t += f'_Static_assert(sizeof(CRYPTO_ALGNAME) == sizeof("Kyber{256*k}") && __builtin_strcmp(CRYPTO_ALGNAME, "Kyber{256*k}") == 0, "CRYPTO_ALGNAME names the parameter set");\n'
        for e, ty in PROTOS.items():
            t += f'_Static_assert(_Generic(&crypto_kem_{e}, {ty}: 1, default: 0), "crypto_kem_{e} is declared as documented");\n_Static_assert(&crypto_kem_{e} == &{P}{e}, "crypto_kem_{e} is {P}{e}");\n'
        out.append((f"kem.h[{256*k}]", t, [f"-DKYBER_K={k}"]))
        out.append((f"kem.c[{256*k}]", '#include "api.h"\n#include "kem.c"\n', [f"-DKYBER_K={k}"]))
    # 3. hash headers
    rates = "".join(f'_Static_assert({n} == {v}, "{n} is {v}");\n' for n, v in (("SHAKE128_RATE", 168), ("SHAKE256_RATE", 136), ("SHA3_256_RATE", 136), ("SHA3_512_RATE", 72)))
    t = inc + '#include "fips202.h"\n' + rates
    for f, ty in HASH.items(): t += f'_Static_assert(_Generic(&{f}, {ty}: 1, default: 0), "{f} is declared as documented");\n_Static_assert(&{f} == &pqcrystals_kyber_fips202_{impl}_{f}, "{f} lies in the namespace of the library");\n'
    out.append(("fips202.h", t, []))
    if impl == "avx2":
        t = inc + '#include "fips202x4.h"\n'
        for f, ty in HASHX4.items(): t += f'_Static_assert(_Generic(&{f}, {ty}: 1, default: 0), "{f} is declared as documented");\n_Static_assert(&{f} == &pqcrystals_kyber_fips202x4_avx2_{f}, "{f} lies in the namespace of the library");\n'
        out.append(("fips202x4.h", t, []))
    return out

DECISIVE = re.compile(r"static assertion failed|use of undeclared identifier|conflicting types|undeclared|redefinition of|too (many|few) arguments")

def witness_check(work, fs, unknown, cov):
    jobs = []
    for impl in kem.IMPLS:
        for name, text, fl in witnesses(impl):
            p = f"{work.dir}/w_{impl}_{re.sub('[^a-z0-9]', '_', name)}.c"; open(p, "w").write(text)
            vec = work.VEC if impl == "avx2" else []
            jobs.append((impl, name, text.count("_Static_assert") or 5, ["clang", "-std=c11", "-fsyntax-only", "-w", "-ferror-limit=0", "-I."] + vec + fl + [p]))
    def one(j):
        impl, name, n, cmd = j; r = subprocess.run(cmd, cwd=f"{build.REPO}/{impl}", capture_output=True, text=True); return impl, name, n, r
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        for impl, name, n, r in ex.map(one, jobs):
            cov["witness_programs"] += 1; cov["witness_obligations"] += n
            if r.returncode == 0: continue
            errs = [l for l in r.stderr.splitlines() if re.search(r"(fatal )?error:", l)]; dec = [l for l in errs if DECISIVE.search(l)]
            for l in dec[:6]: fs.append(Finding("P16", f"{impl}/{name}", f"{impl}/{name}", "interface-witness", re.sub(r"^\S*/w_\S+?\.c:\d+:\d+: ", "", l)))
            if not dec: unknown.append(f"{impl}/{name}: witness program does not compile: {' / '.join(errs[:3])[:300]}")

def syms(obj):
    r = subprocess.run(["nm", "-g", obj], capture_output=True, text=True)
    if r.returncode: raise Broken("nm: " + r.stderr[-300:])
    d, u = {}, set()
    for l in r.stdout.splitlines():
        f = l.split()
        if len(f) == 2 and f[0] in "UwvW": u.add(f[1])
        elif len(f) == 3: d[f[2]] = f[1]
    return d, u

LIBC = re.compile(r"^(memcpy|memmove|memset|memcmp|bcmp|bzero|explicit_bzero|strlen|abort|randombytes|__stack_chk_fail|__assert_fail|__mem\w+_chk|_GLOBAL_OFFSET_TABLE_)$")

def symbol_check(work, fs, unknown, cov):
    libs = collections.OrderedDict()      # library -> (prefix, [object])
    jobs = []
    for impl in kem.IMPLS:
        src = f"{build.REPO}/{impl}"; vec = work.VEC if impl == "avx2" else []
        cfiles = sorted(os.path.basename(p) for p in glob.glob(src + "/*.c")); asm = sorted(os.path.basename(p) for p in glob.glob(src + "/*.S")); k4 = sorted("keccak4x/" + os.path.basename(p) for p in glob.glob(src + "/keccak4x/*.c"))
        def obj(lib, f, fl):
            o = f"{work.dir}/{lib}_{f.replace('/', '_')}.o"; libs.setdefault(lib, []).append((f"{impl}/{f}", o)); jobs.append((["clang", "-O0", "-w", "-c"] + vec + fl + [f, "-o", o], src))
        hashes = [f for f in cfiles if f == "fips202.c"]; hx4 = [f for f in cfiles if f == "fips202x4.c"] + k4
        for f in hashes: obj(f"pqcrystals_kyber_fips202_{impl}", f, [])
        for f in hx4: obj(f"pqcrystals_kyber_fips202x4_{impl}", f, [])
        for k in kem.RANKS:
            for f in cfiles + asm:
                if f in hashes or f in hx4 or f == "randombytes.c": continue
                obj(f"pqcrystals_kyber{256*k}_{impl}", f, [f"-DKYBER_K={k}"])
    def one(j):
        r = subprocess.run(j[0], cwd=j[1], capture_output=True, text=True)
        return None if r.returncode == 0 else r.stderr[-400:]
    with cf.ThreadPoolExecutor(build.JOBS) as ex:
        for e in ex.map(one, jobs):
            if e: raise Broken("source does not compile: " + e)
    owner, undef = collections.defaultdict(list), []
    for lib, objs in libs.items():
        for f, o in objs:
            d, u = syms(o); cov["objects"] += 1; undef.append((lib, f, u))
            for s, ty in d.items():
                cov["global_symbols"] += 1; owner[s].append((lib, f))
                if not s.startswith(lib + "_"): fs.append(Finding("P16", lib, f, "symbol-namespace", f"global symbol {s} does not lie in the namespace {lib}_"))
    for s, where in owner.items():
        if len(where) > 1: fs.append(Finding("P16", where[0][0], where[-1][1], "symbol-clash", f"global symbol {s} is defined by {' and '.join(l + ' (' + f + ')' for l, f in where[:4])}"))
    for lib, f, u in undef:
        impl = lib.rsplit("_", 1)[1]; may = {lib, f"pqcrystals_kyber_fips202_{impl}", f"pqcrystals_kyber_fips202x4_{impl}"}
        for s in sorted(u):
            cov["references"] += 1
            if s in owner:
                if owner[s][0][0] not in may: fs.append(Finding("P16", lib, f, "foreign-reference", f"refers to {s} of the unrelated library {owner[s][0][0]}"))
            elif s.startswith("pqcrystals_"): fs.append(Finding("P16", lib, f, "undefined-reference", f"refers to {s}, which no library defines: programs using it do not link"))
            elif not LIBC.match(s): cov["system_symbols"].append(s)
    for impl in kem.IMPLS:
        need = [f"pqcrystals_kyber{256*k}_{impl}_{e}" for k in kem.RANKS for e in PROTOS] + [f"pqcrystals_kyber_fips202_{impl}_{h}" for h in HASH] + ([f"pqcrystals_kyber_fips202x4_avx2_{h}" for h in HASHX4] if impl == "avx2" else [])
        for s in need:
            cov["published_functions"] += 1
            if s not in owner: fs.append(Finding("P16", impl, f"{impl}/", "missing-function", f"published function {s} is not defined by any library"))
    # the hash libraries are shared by all parameter sets: they must not depend on the rank
    for impl in kem.IMPLS:
        for f in ["fips202.c"] + (["fips202x4.c"] if impl == "avx2" else []):
            t = [subprocess.run(["clang", "-E", "-P", "-w"] + (work.VEC if impl == "avx2" else []) + [f"-DKYBER_K={k}", f], cwd=f"{build.REPO}/{impl}", capture_output=True, text=True) for k in kem.RANKS]
            if any(x.returncode for x in t): raise Broken(f"{impl}/{f} does not preprocess")
            cov["rank_independence"] += 1
            if len({x.stdout for x in t}) != 1: fs.append(Finding("P16", impl, f"{impl}/{f}", "rank-dependent", "the shared hash library differs between parameter sets"))

def check(work, tier):
    fs, unknown, cov = [], [], dict(witness_programs=0, witness_obligations=0, objects=0, global_symbols=0, references=0, published_functions=0, rank_independence=0, system_symbols=[])
    witness_check(work, fs, unknown, cov); symbol_check(work, fs, unknown, cov)
    cov["system_symbols"] = sorted(set(cov["system_symbols"]))
    if not cov["global_symbols"]: unknown.append("no symbols found")
    return fs, unknown, cov

CHECKS = {"P16": check}
EXPL = {"P16": "Type-level witnesses: programs of static assertions that compile only if lengths and prototypes of the public headers equal the documented and the implemented ones; symbol-table audit of every object of the ten libraries."}
