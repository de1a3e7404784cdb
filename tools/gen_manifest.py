#!/usr/bin/env python3
"""Writes MANIFEST.json and meta.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded model checking on the real code: exhaustive enumeration of operations against a math/big reference model, two builds"
BASE = ["the reference model in harness/ref (math/big, textbook definitions, self-checked at start)",
        "the Go toolchain and, for the portable build, 32-bit execution on this machine"]
NOTE = " Holds for every execution inside the stated spaces, on the assembly build and the portable build; values outside them are not covered. Trusts the reference model and the Go toolchain."
M = {}


def c(id, rule, note, level="model_checking", tech=ENUM, **kw):
    M[id] = dict(level=level, technique=tech, rule=rule, note=note, assumptions=BASE + kw.pop("assume", []), **kw)


c("C01", "Every exported Fq operation on every element of the named grids (limbs from {0,1,2^63,2^64-1,...} in every position, values next to 0, q/2, q, 2^k, Montgomery images of those, complements, products that land next to 0 and q) and on every pair of boundary elements; a case counts as non-trivial when the operands are not both zero.",
  "All elements and pairs of the limb-boundary alphabet, not all 2^762 pairs." + NOTE)
c("C02", "As C01 for Fr (also operands of order 2^k for the square root), plus every sequence up to the bound of the assigning operations on two scalars, replayed against integers modulo r with every earlier value looked at again.",
  "All scalars and pairs of the limb-boundary alphabet; all operation sequences to the depth of the space 'sequences'." + NOTE)
c("C03", "Every vector of the limb alphabet through every limb primitive, and limb vectors solved backwards so that every reachable combination of carries of the Montgomery reduction occurs (carry automaton); states are carry states, a case is non-trivial when an operand is non-zero.",
  "All carry patterns of the reduction automaton and all limb-alphabet vectors." + NOTE)
c("C04", "Every shift count from 0 past the width, every bit index, every pair of boundary integers, every conversion, all byte strings up to length 5 over a small alphabet in the bit iterator, and operation sequences on one object.",
  "All shift counts and bit positions on all boundary integers." + NOTE)
c("C05", "Every Fq2 operation on all elements with components in a boundary alphabet, all ordered pairs of them, aliased and not, and all sequences of assigning operations to a bound.",
  "All pairs over the component alphabet, including zero, equal, opposite components and both square classes." + NOTE)
c("C06", "Every Fq6/Fq12 operation on all patterns of zero/one/generic coefficients, all Frobenius powers, all sparse multiplications, the receiver aliased with each argument, and all operation sequences to a bound.",
  "All 4^6 zero patterns of Fq6 and a covering set of patterns for Fq12." + NOTE)
for k, n, l in (("C07", "G1", 11), ("C08", "G2", 13)):
    c(k, "All ordered pairs of the whole %d-torsion group of the %s curve (infinity, equal and opposite points included) in several projective representations each, mixed pairs, triples for associativity, and all sequences of group operations to a bound, each step compared with the affine textbook law." % (l, n),
      "The group law is decided completely on the %d-torsion subgroup times the representations, and on the mixed list." % l + NOTE)
c("C09", "All scalars of the limb-boundary alphabet and all small scalars, on points in and outside the subgroup, infinity and every point of a small torsion group; membership for every point of the list.",
  "All (point, scalar) pairs of the alphabets; points of small order are enumerated completely." + NOTE)
c("C10", "Every combination of the three flag bits with every coordinate of the boundary list (below, at and above q, on and off the curve, in and out of the subgroup), every single flipped bit of several encodings (thorough: every byte value in every position and pairs of flips), and every pair of points for distinct encodings.",
  "All flag combinations, all one-bit corruptions; byte strings outside the grid are not covered." + NOTE)
c("C11", "Every point of the boundary list into every prior state of the receiving object, and all sequences of loads on one object.",
  "All (old state, point) pairs of the list." + NOTE)
c("C12", "All pairs of boundary scalars on all pairs of representatives, all lists of pairs up to the bound with infinity in every position, all sign/scalar combinations of CompareTwoPairings; values are compared in the target group and with an independent textbook Miller loop.",
  "All lists to the stated length over the point alphabet." + NOTE)
c("C13", "All message lengths of the range, all one-byte messages, all single-bit digests and domains, messages searched so that derived field elements are extreme, and all exceptional inputs of the maps, against an independent implementation of the specification.",
  "The maps are explored on all exceptional inputs; the messages are an enumerated list." + NOTE,
  assume=["the seam inside HashG1/HashG2 is explored only while the two unexported maps still compose to them"])
c("C14", "All (key, message, domain) triples of the alphabet against all signature points that are small integer combinations of honest signatures, all changed bytes of messages, digests and domains, and the wrong key; the verdict must be exactly the equation's.",
  "All combinations in the stated coefficient box. Signature and key points of the prime-order group." + NOTE)
c("C15", "All lists of (key, message) pairs to the bound over an alphabet with the empty message, duplicates and infinity keys, each against the right sum, changed sums and the sums of all other lists; all aggregation orders; all length mismatches.",
  "All lists to the stated length over the alphabet." + NOTE)
c("C16", "All 32-byte boundary secrets, all reachable objects, every flag/coordinate combination of 48 and 96 byte strings, every flipped bit; the result must be the point the byte string denotes or an error.",
  "All grid byte strings and one-bit corruptions." + NOTE)
c("C17", "Every public operation on every argument tuple from a pool with aliases and shared constants; after each call the whole pool and all constants are compared, then each result and each argument is changed in place in every way; plus pairs of calls, different orders of all calls in fresh processes, and walks over one evolving pool.",
  "All single calls over the pool and all thinned pairs; longer histories only on the walks." + NOTE)
c("C19", "Every generator on every stream of the block alphabet (zeros, ones, around the modulus, off the curve, low order): the stream cut after every byte, failing at every read (once or for good), with and without data, and delivered in eight splits; a case is non-trivial when a fault or a split is present.",
  "All single faults on the enumerated streams." + NOTE, level="fault_enumeration",
  tech="exhaustive fault enumeration: every read of the entropy source fails, ends or is split, on every stream of an alphabet")
c("C18", "Two or three goroutines, each making one of 1113 calls (every exported operation on a pool of shared arguments; receivers of in-place operations private). (1) Each operation alone, package-level variables and shared arguments compared before every executed statement (first 64 executions of each statement, then every 61st): operations that leave shared memory alone are independent of all others, so all their interleavings are one trace. (2) Schedules at statement granularity: one preemption at spread statements for pairs of all operations; for operations found to change shared memory, one preemption at every statement next to a change or naming a changed variable or a lock, two preemptions and three goroutines, in new processes and in warm ones. (3) Happens-before analysis of every operation with itself and with all others at once.",
  "Schedules are exhaustive within the listed points and preemption bound 2, at statement granularity, locks simulated. Memory orders weaker than sequential consistency only through the happens-before analysis. Assembly is a single step.",
  tech="stateless model checking: preemption-bounded enumeration of schedules of the real code under a cooperative scheduler, reduced by observed independence, with happens-before race analysis", kind="conc",
  assume=["the scheduler calls woven into a copy of the current sources change no behaviour"])

DONE = [k for k in sorted(M) if k != "C18" or os.path.exists(os.path.join(HERE, "conc.py"))]
json.dump({k: {x: v for x, v in M[k].items() if x in ("level", "rule", "assumptions", "kind", "thorough_s")} for k in DONE},
          open(os.path.join(HERE, "meta.json"), "w"), indent=1)
man = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k,
                "evidence_file": "evidence/%s.json" % k, "technique": M[k]["technique"], "level": M[k]["level"], "level_note": M[k]["note"]} for k in DONE],
    "not_applicable": [{"property": k, "reason": "the check is being built"} for k in sorted(M) if k not in DONE],
    "notes": "Every check rebuilds its harness against /repo's working tree. No hooks in /repo: the harness uses the exported API; two unexported functions are reached through a go build overlay, and C18 instruments a scratch copy of the sources through an overlay. Repairs are the fix: commits listed in known_findings.txt.",
}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
