#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after a change of claims; not used by any check)."""
import json
AI = "abstract interpretation of LLVM IR and disassembly (algebraic value-numbering domain)"
TRUST = ("Sound for every input up to the collision probability (below 2^-60 per comparison) of the algebraic value numbers; trusts clang's front end, objdump, and the "
         "transcription of the Kyber specification and of the x86 and LLVM instruction semantics in analyzer/.")
T = {
 "P01": ("memory-region and offset-interval " + AI, "Every load and store of all 30 API entry points (3 ranks, 2 implementations, 5 calls) is bounded on all paths. Hash cores are analysed once as opaque contracts here and bit-precisely under P10/P11."),
 "P02": ("interval and exact value-table " + AI, "Every signed operation, shift and 16-bit vector lane result of all entry points is shown in range for every input, including unreduced encodings."),
 "P03": ("secrecy dataflow inside " + AI, "Exact at bit level on analysed paths; covers branches, addresses, lengths, shift counts and division operands at IR and assembly level. Does not model what the back end makes of branch-free IR."),
 "P04": ("algebraic value numbering of the decapsulation output", "The output of decapsulation is shown equal, bit for bit, to the specified selection, with the encryption layer analysed in place and again replaced by its specification."),
 "P05": ("algebraic value numbering of key tail, hash inputs, seeds and randomised wrappers", "All output bits compared with the specification."),
 "P06": ("algebraic value numbering in F_q^8 with per-call contracts of NTT, inverse NTT, base multiplication and reductions", "All packed coefficients compared; contracts evaluated at every call for symbolic operands."),
 "P07": ("rejection-sampling abstract domain with loop induction", "All streams, all positions, unbounded number of stream blocks by induction."),
 "P08": ("algebraic value numbering of noise polynomials and enumeration of PRF inputs", "All nonces and all coefficient/bit positions."),
 "P09": ("exhaustive value-table evaluation of coding functions inside " + AI, "Every residue and every encoded value."),
 "P10": ("bit-exact symbolic value numbering of the sponge for enumerated lengths and chunkings, permutation verified on 1600 symbolic bits", "The permutation and every byte position of the block are covered exactly for symbolic contents; lengths are enumerated over several blocks (all residues modulo the rate) and at every threshold the code itself distinguishes; an interval analysis of the length arithmetic extends the result to longer inputs."),
 "P11": ("bit-exact symbolic value numbering of the four-lane permutation and functions for enumerated lengths", "As P10, with four independent symbolic inputs."),
 "P12": ("typestate of the random source with an affine-equality domain, to a fixpoint over the loops", "All sequences of short, empty, interrupted and failed requests, all request lengths, all four platform branches."),
 "P13": ("call-graph effect analysis with flow-insensitive mod analysis of static storage", "All functions of all six library configurations, IR and disassembly."),
 "P16": ("compile-time witnesses (static assertions that make a mismatching program fail to build) and symbol-table audit", "All headers, ranks and implementations; every global symbol of every object."),
 "P14": ("initialisation and mod/ref dataflow", "All entry points, all paths."),
 "P15": ("constant propagation of return values, reachability of non-returning calls, loop induction on stream consumption", "All entry points; termination of rejection sampling is probabilistic and shown as progress per iteration."),
 "P17": ("equality of the algebraic value numbers of the outputs of sibling implementations", "All outputs, all ranks, all calls."),
 "P18": ("error-distribution (noise-budget) analysis: exact convolution of the specified distributions, plus algebraic value numbering showing that the code computes exactly that scheme", "The bound is computed for the specified distributions under the published independence model; what is decided from the source is that keys, ciphertexts and decoding follow that scheme for every value, and that the KEM layer returns the encapsulated secret whenever decryption recovers the message."),
 "P19": ("algebraic value numbering of the generator with AES as an opaque function, over a partition of the counter states by carry reach; typestate of the cipher context and its failures", "Every counter value is in an analysed class; requests up to 80 bytes at every length plus long ones, chunkings of the expander enumerated around the block size."),
}
NA = {"P18": "The failure probability is a quantity over the distribution of sampled values; it is a property of the parameter set, not decidable from the shape of the code. The structural parts it rests on (exact equations, exact distributions, exact rounding) are P06, P08 and P09."}
if __name__ == "__main__":
    for p in T: NA.pop(p, None)
    m = dict(version=1, setup_cmd="make -s -j8",
      checks=[dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough", technique="static analysis: " + t, level="other", level_note=n + " " + TRUST) for p, (t, n) in sorted(T.items())],
      not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
      notes="No hooks: /repo is analysed as it is.")
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
