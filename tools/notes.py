B = " Holds for the executions observed; trusts the vendored field/curve library and the harness oracles."
NOTE = {
 "C01": ("runtime monitoring: accept/reject monitor over generated constraint-system programs",
         "Random and swept programs satisfied by construction, proved and verified by the real code on the real and the simulated group." + B),
 "C02": ("runtime monitoring: adversarial workloads with an independent verification-equation oracle",
         "Faulty witnesses, cancelling faults and adaptive provers (reference prover driven by the real verifier's challenges) must be rejected." + B),
 "C03": ("runtime monitoring: mutation of recorded proofs and contexts with an accept/reject monitor",
         "Every element of sampled proofs (programs and gadgets) is altered in several ways, every context input replaced; each variation must be rejected." + B),
 "C04": ("runtime monitoring: fault injection with a panic/abort monitor on every verification entry point",
         "AddressSanitizer run as well. Malformed proofs, commitment lists and generator lengths; overflow checks and debug assertions are compiled in for the code under test." + B),
 "C05": ("runtime monitoring: recorded transcript event log checked offline against a binding specification",
         "An instrumented transcript records every absorb and challenge of prover and verifier; dependence of each challenge on each earlier message is checked on the log and by perturbation." + B),
 "C06": ("runtime monitoring: entropy taps and opening of every mask on the simulated group",
         "Masks are recovered on a group with known discrete logarithms and compared with the entropy drawn: fresh, full size, never repeated." + B),
 "C07": ("runtime monitoring: recomputation monitor on every returned commitment, plus refusal checks",
         "Each commitment is compared with the Pedersen formula for the caller's randomness; missing or wrong-length randomness must be refused." + B),
 "C08": ("runtime monitoring: accept/reject monitor with an independent inner-product oracle and adaptive attacks",
         "Lengths 1..1024 with special scalar values, all proof elements and inputs altered, adaptive late-element provers." + B),
}
NOTE.update({
 "C09": ("runtime monitoring: API traces of prover and verifier compared with an independent model of the constraint system",
         "Random programs run on prover, verifier and a model; variables, counters, evaluation, callback order and errors are compared event by event." + B),
 "C10": ("runtime monitoring: accept/reject monitor with an interval oracle, witness search over the verifier's recorded constraints",
         "Every value at and around the bounds for all bit sizes up to 64; out-of-range values attacked by template provers and by a searching prover." + B),
 "C11": ("runtime monitoring: accept/reject monitor with a set oracle, witness search over the verifier's recorded constraints",
         "Every position of many set sizes, both constructions; non-members attacked by template provers and by a searching prover." + B),
 "C12": ("runtime monitoring: accept/reject monitor with a set oracle, witness search over the verifier's recorded constraints",
         "Every position of many set sizes; members and zero attacked by template provers and by a searching prover." + B),
 "C13": ("runtime monitoring: native hashes compared with a reference and pinned answers, preimage proofs with accept/reject monitor and witness search",
         "All widths, S-boxes and round splits, special inputs; wrong preimages attacked by template provers and by a searching prover." + B),
})
NOTE.update({
 "C14": ("runtime monitoring: update/get histories on the real trees checked online against a map model and the definition of the root",
         "Random, clustered and adversarial histories on both arities and many depths, shared stores, old roots; every returned proof altered in every element, index digit and length." + B),
 "C15": ("runtime monitoring: accept/reject monitor with a Merkle-path oracle, witness search over the verifier's recorded constraints",
         "Every child position at every level for both arities; wrong leaf, index, root, depth attacked by template provers and by a searching prover." + B),
 "C16": ("runtime monitoring: accept/reject monitor with a counting oracle, witness search over the verifier's recorded constraints",
         "Every difference pattern of short vectors and sampled long ones, all wrong counts, unequal lengths on both sides." + B),
 "C17": ("runtime monitoring: accept/reject monitor with a tree-difference oracle, witness search, index selection compared with its definition",
         "All index sets of depth 1, sampled ones of deeper trees; trees differing elsewhere, wrong committed values, siblings and roots." + B),
})
NOTE.update({
 "C18": ("runtime monitoring: accept/reject monitor over composed gadget sequences with one falsified sub-statement, witness search over the verifier's recorded constraints",
         "Random sequences of all gadgets, shared variables, randomized callbacks; each component falsified in turn and attacked." + B),
 "C19": ("runtime monitoring: round-trip monitor on serialized proofs, verdict compared before and after",
         "Proofs of every gadget in three serialization formats, every field altered, truncated, dropped, swapped; malformed text must give an error." + B),
})
NOTE.update({
 "C20": ("runtime monitoring: return values compared with independently recomputed definitions",
         "Polynomials of all lengths to 1024, special and random points; up to 70000 generators; perturbed challenge inputs; digit splits of special and random scalars." + B),
})
NOTE.update({
 "C21": ("runtime monitoring: differential monitor of proofs and verdicts across histories, nested and interleaved runs and threads with injected scheduling points, against fresh processes",
         "ThreadSanitizer on the threaded cases. Units of every gadget, program, inner-product, tree and hash kind; disturbances that fail, panic or are abandoned; 2 to 16 threads." + B),
})
