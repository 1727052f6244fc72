#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests,
                  files=files, mech=[dict(name=a, where=b) for a, b in mech], note=note, observe=observe or []))

K = "kzg/src/"
prop("K01", "Honest KZG openings verify and carry the polynomial's value",
  "A commitment is the group element whose discrete logarithm is the polynomial evaluated at the setup secret. For every polynomial that fits the setup and every point, the honest opening carries the polynomial's value at that point and verification accepts it. The polynomial and the coefficient-vector entry points agree.",
  ["inputs", "configurations"], "every polynomial up to the setup's capacity (zero, constants, trailing zero coefficients included) x every point (the secret and roots of the polynomial included) x every setup size",
  "The tests open two or three fixed polynomials of degree 3-4 under one setup size; shapes (zero, constant, capacity, point = secret) are not sampled.",
  [K+"scheme.rs", K+"srs.rs", K+"opening.rs", K+"commitment.rs"],
  [("commitment as linear combination of SRS powers", K+"scheme.rs: evaluate_in_s, commit, commit_vector, commit_para"), ("quotient witness", K+"scheme.rs: open, open_vector"), ("pairing check", K+"scheme.rs: verify")],
  "Every listed case is executed on the real code and compared with a reference in the exponent (secret known). Trusts arkworks' curve and pairing.")
prop("K02", "KZG verification accepts exactly the openings that are right",
  "Verifying an opening succeeds if and only if commitment, witness point, value and evaluation point satisfy the KZG relation under the setup; nothing else about them matters. Any change of one component of a valid opening that breaks the relation is rejected.",
  ["inputs"], "all combinations of commitments, witness points, values and points",
  "The tests verify honest openings and reject none; the space of wrong openings is not sampled at all.",
  [K+"scheme.rs"], [("pairing check", K+"scheme.rs: verify")],
  "Complete decision table over all discrete logarithms in an alphabet plus all one-component changes of honest openings; the oracle decides in the exponent.")
prop("K03", "Batched KZG verification accepts exactly when every opening is right",
  "Verifying a batch of openings gives the same answer as verifying each opening on its own, whatever the batch length, the order, the verifier's randomness and the way the errors of wrong openings relate to each other. In particular errors that would cancel each other are rejected.",
  ["inputs", "fault_sequences"], "all batches, all assignments of defects to their items, all random streams of the verifier",
  "One test batches four honest openings; no wrong or cancelling opening is tried.",
  [K+"scheme.rs"], [("random linear combination of the openings", K+"scheme.rs: batch_verify")],
  "Every defect assignment over short batches, and every position/ratio of cancelling defects over long ones, under several random streams. A 2^-128 coincidence is ignored.")
prop("K04", "KZG commitments and openings are linear",
  "Adding, subtracting, negating and scaling commitments gives the commitment of the polynomial combined the same way; adding the openings of two polynomials at one point gives a valid opening of the sum; aggregating commitments under a challenge gives the commitment of the combination with the challenge's powers. No operation changes its operands.",
  ["inputs"], "every pair of polynomials, scalar, number of commitments and challenge",
  "Tests check one scalar product and one aggregation of fixed commitments; openings are never added.",
  [K+"scheme.rs", K+"opening.rs", K+"commitment.rs"],
  [("operators of commitments", K+"scheme.rs: impl Add/Sub/Mul/Neg for KzgCommitment"), ("sum of openings", K+"opening.rs: impl Add"), ("aggregation", K+"scheme.rs: aggregate_commitments")],
  "Every pair over the alphabet executed and compared in the exponent.")
prop("K05", "The setup is the list of powers of one secret and nothing else",
  "A setup of a given size holds the generator times consecutive powers of one secret, that secret times the second generator, and as many powers as promised for the size; it depends on the secret only. Setups drawn at random use a fresh secret, and committing or opening what exceeds the capacity is refused rather than truncated.",
  ["inputs", "configurations"], "every size, secret and entropy stream",
  "Tests use one random setup and never look at its points or exceed its capacity.",
  [K+"srs.rs", K+"scheme.rs"], [("powers of the secret", K+"srs.rs: new, new_from_secret"), ("capacity", K+"scheme.rs: evaluate_in_s, commit_vector")],
  "Every size/secret up to the bound, all points compared; entropy is answered by the explorer.")

F = "fri/src/"
prop("F01", "Honest FRI proofs are accepted",
  "For every polynomial, blow-up factor and number of queries whose domain fits the field, producing a low-degree proof succeeds and the proof is accepted, whatever challenges and query positions the hash yields.",
  ["inputs", "configurations"], "every polynomial (zero, constant, any length), blow-up factor, query count, and every answer of the hash",
  "Three tests prove a handful of polynomials over Goldilocks with the challenges SHA-256 happens to give.",
  [F+"prover.rs", F+"verifier.rs", F+"fri_layer.rs", F+"fiat_shamir/transcript.rs"],
  [("commit phase, folding", F+"prover.rs: folding_phase, fold_polynomial"), ("query phase", F+"prover.rs: query_phase"), ("verifier", F+"verifier.rs: verify, verify_query")],
  "Over tiny fields a programmable hash makes the explorer enumerate every challenge; over Goldilocks every length/blow-up/query combination up to the bound.")
prop("F02", "FRI accepts only proofs that are consistent with their commitments",
  "An accepted low-degree proof opens, at every position the transcript selects and at every layer, values that are authenticated by the committed roots at exactly these positions, and each layer's values fold to the next and finally to the constant under challenges derived from all earlier commitments. A proof whose lists are missing, short, long, or of the wrong sizes is rejected, never a crash. What is proved is a bound on the degree, with as many queries as the parties agreed on.",
  ["inputs", "fault_sequences"], "every malicious prover: all proofs, up to the stated number of deviations from a well-formed one",
  "One test changes one value of one proof; adversarial trees, roots, paths, sizes and lists are never tried.",
  [F+"verifier.rs", F+"merkle_tree.rs", F+"prover.rs", F+"fiat_shamir/transcript.rs"],
  [("query checks", F+"verifier.rs: verify_query"), ("path bound to root, index and depth", F+"merkle_tree.rs: is_for_tree, verify_merkle_proof"), ("shape checks", F+"verifier.rs: verify")],
  "All combinations of up to 2 (3 thorough) adversarial deviations, judged by an independent reference verifier. Two parameter weaknesses of the interface are known findings. 64-bit hash collisions are ignored.",
  )
prop("F03", "A FRI proof is exactly the one the protocol prescribes",
  "Every commitment, opened value, position, authentication path and the final constant of an honest proof are those of the protocol: layer k is the evaluation, on the k-th squared coset, of the polynomial folded k times under challenges drawn after each commitment, and queries open both symmetric points of every layer. The proof is a function of the inputs alone.",
  ["inputs", "configurations"], "every polynomial, blow-up factor and query count, and every challenge over a small field",
  "Tests check folding of one polynomial and one opening per layer.",
  [F+"prover.rs", F+"fri_layer.rs", F+"merkle_tree.rs", F+"fiat_shamir/transcript.rs"],
  [("folding", F+"prover.rs: fold_polynomial, folding_phase"), ("layer evaluation", F+"fri_layer.rs: from_poly"), ("openings", F+"prover.rs: query_phase")],
  "Independent reference prover compared component by component on every enumerated input.")
prop("F04", "A Merkle root binds every entry and every position of its table",
  "Two tables of evaluations of the same size have the same commitment only if they are equal: changing any entry or exchanging two different entries changes the root. Every entry opens at its own index, with a path that leads from its value to the root.",
  ["inputs"], "all tables and positions",
  "One test opens one index of one table of eight.",
  [F+"merkle_tree.rs", F+"hasher.rs"], [("tree", F+"merkle_tree.rs: new, generate_proof, verify_merkle_proof"), ("hash", F+"hasher.rs: hash, hash_slice")],
  "All small tables pairwise by their roots, all single changes and swaps of larger ones, reached through the public prover. Collisions of the 64-bit hash are ignored.")

prop("F05", "The FRI field is Goldilocks and its subgroups have the right order",
  "The field of the low-degree proofs is the integers modulo 2^64-2^32+1: sums, differences, products, inverses, powers, comparisons and conversions are those of that ring for all values. The fixed generator generates the whole multiplicative group; for each k up to 32 the root of unity of order 2^k has exactly this order and squares to the previous one, there is none beyond; the coset used for evaluation never meets the subgroup of the same size.",
  ["inputs", "configurations"], "all field elements, all two-power domain sizes",
  "Tests compute with a few small elements on domains of 8 to 64; a generator of a proper subgroup or a wrong order passes them.",
  [F+"fields/goldilocks.rs"], [("field parameters", F+"fields/goldilocks.rs: FqConfig")],
  "All pairs of boundary values against 128-bit arithmetic; all 33 orders; domains and cosets element by element.")

L = "plonk/src/"
prop("P01", "Every satisfied PLONK circuit is provable and its proof is accepted",
  "For every circuit whose gates and copy constraints hold, of any size, wiring and mix of gates and public inputs, and every large enough setup, hash and entropy, proof generation succeeds and verification with the same circuit description accepts the proof.",
  ["programs", "inputs", "configurations"], "every satisfied circuit, witness, public input, setup, hash and entropy stream",
  "Three tests prove fixed circuits with two to four gates and SHA-256; sizes at powers of two, single gates, other hashes, zero values, long copy cycles are not reached.",
  [L+"prover.rs", L+"verifier.rs", L+"circuit.rs", L+"constraint.rs", L+"challenge.rs", L+"slice_polynomial.rs"],
  [("five rounds", L+"prover.rs: generate_proof"), ("permutation accumulator", L+"prover.rs: compute_acc"), ("quotient, linearisation", L+"prover.rs: compute_quotient_polynomial, compute_linearisation_polynomial"), ("quotient slices", L+"slice_polynomial.rs"), ("verifier", L+"verifier.rs: verify")],
  "Every small circuit and families at all sizes to the bound are proved and verified with the real code.")
prop("P02", "No PLONK proof of a circuit whose constraints fail is accepted",
  "If any gate equation (public inputs included) or any copy constraint of a circuit fails for the witness, the proof made for it is not accepted, whatever cell is wrong and however many. This includes provers that do not follow the protocol, choose public inputs after the challenges, or claim other polynomial sizes.",
  ["programs", "inputs", "fault_sequences"], "every circuit, every set of wrong cells, every cheating strategy",
  "One test changes one constant of one circuit.",
  [L+"prover.rs", L+"verifier.rs", L+"circuit.rs", L+"constraint.rs"],
  [("gate and copy identities", L+"prover.rs: compute_quotient_polynomial"), ("verifier equation", L+"verifier.rs: verify"), ("statement bound into the challenges", L+"verifier.rs: statement_challenges")],
  "All single and pairwise wrong cells of the enumerated circuits, for the library's prover and an own cheating prover in 8 modes; soundness is established against these strategies, probability 2^-64 ignored.")
prop("P03", "The PLONK verifier decides exactly the PLONK equation for its statement",
  "A proof is accepted if and only if the pairing equation of the protocol holds for the circuit's selectors, permutation, coset factors, public inputs and size, under challenges derived from that statement and all of the proof's messages in order with the given hash. Changing any component of an accepted proof, or the circuit, public inputs, setup or hash, makes it rejected; malformed proofs never crash the verifier.",
  ["inputs", "fault_sequences"], "every proof, circuit description, setup and hash",
  "Tests verify honest proofs only (one unsatisfied circuit); single terms of the equation could be dropped for the circuits tested.",
  [L+"verifier.rs", L+"challenge.rs", L+"constraint.rs"],
  [("challenge schedule", L+"verifier.rs: verify_challenges, statement_challenges"), ("transcript", L+"challenge.rs"), ("equation", L+"verifier.rs: verify")],
  "Simulated proofs (built in the exponent with the setup secret) reach every term of the equation separately; each change is judged by an independent verifier in the exponent.")
prop("P04", "A compiled PLONK circuit is exactly the circuit that was built",
  "The compiled description has, row by row, the selectors, values and public inputs of the gates added, padded with rows that constrain nothing to a power of two; rows the witness-free builder is told to leave free constrain nothing and keep their place; the permutation links exactly the cells that were given the same position, and cell labels never coincide. Building the same circuit with or without a witness gives the same constraints.",
  ["programs", "configurations"], "every circuit, every wiring, every size, every domain",
  "Two tests compile one four-gate circuit each and compare some polynomials.",
  [L+"circuit.rs", L+"gate.rs", L+"constraint.rs", L+"common_preprocessed_input/cpi_circuit.rs", L+"compiled_circuit.rs"],
  [("gates to rows", L+"gate.rs, "+L+"circuit.rs: add_gate, get_assignment, pad_circuit"), ("permutation", L+"circuit.rs: cal_permutation"), ("cosets", L+"circuit.rs: find_cosets"), ("witness-free twin", L+"common_preprocessed_input/cpi_circuit.rs")],
  "All one- and two-gate wirings and families at all sizes compared with a reference table; permutation compared as a partition into cycles.")
prop("P05", "Every PLONK proof is blinded with fresh independent randomness",
  "Wire polynomials and the permutation accumulator are masked by nine independent, uniformly drawn scalars taken from the system's entropy for each proof; no two proofs share them and none is fixed, zero or repeated. Apart from the entropy the proof is a function of circuit and setup.",
  ["inputs", "histories"], "every circuit and every entropy stream, any number of proofs",
  "No test looks at the randomness; proofs without blinding pass all of them.",
  [L+"prover.rs"], [("blinding of a, b, c", L+"prover.rs: commit_round1"), ("blinding of z", L+"prover.rs: generate_proof, round 2")],
  "Entropy is answered by the explorer; scalars recovered in the exponent from proofs under two secrets and compared across all streams.")
prop("P06", "An equation is provable exactly when it is true for the witness",
  "For every well-formed equation and every assignment of its variables, the circuit the equation compiles to is satisfied (so a proof exists and is accepted) if and only if the equation holds over the field under the usual precedence of powers, products, sums and signs. Spacing and letter case do not matter, and malformed text or missing variables are refused rather than read as something else.",
  ["programs", "inputs"], "every equation text and every witness",
  "Tests parse five equations with one witness each.",
  [L+"parser.rs", L+"circuit.rs"],
  [("normalisation, powers", L+"parser.rs: parse_string, push_power"), ("terms and factors to gates", L+"parser.rs: prepare_gen_circuit, gen_circuit, factors"), ("constants and negations", L+"parser.rs: generate_constant_gate, generate_additional_gate, opposite"), ("witness", L+"parser.rs: add_witness, get_witness_value")],
  "Every equation of a grammar up to its size bound, and every token string up to 6 (7) tokens, against an independent evaluator; a subset is really proved and verified.")
prop("P07", "An equation's circuit forces every value except the witness",
  "In the circuit compiled from an equation, fixing the variables determines every other cell: occurrences of one variable or constant are tied together, constants and intermediate results are forced by constraints. A prover free to choose all cells cannot satisfy the circuit of a false equation.",
  ["programs", "inputs"], "every equation and every assignment of all cells",
  "Tests only run the honest assignment; an untied cell is invisible to it.",
  [L+"parser.rs", L+"circuit.rs", L+"common_preprocessed_input/cpi_parser.rs"],
  [("copy constraints by position", L+"parser.rs: push_into_position_map_or_insert"), ("constant gates", L+"parser.rs: generate_constant_gate"), ("result cell", L+"parser.rs: prepare_gen_circuit")],
  "The compiled permutation's classes are computed and every assignment of free classes over an alphabet is propagated through the constraints. The untied result cell is a known finding.")
prop("P08", "The witness-free description of an equation is the prover's circuit",
  "For every equation, the description a verifier computes from the text and setup alone has the same selectors, permutation, coset factors, size and commitments as the circuit the prover builds from text and witness, for every witness.",
  ["programs", "inputs", "configurations"], "every equation, witness and setup",
  "One test compares both for one equation.",
  [L+"common_preprocessed_input/cpi_parser.rs", L+"common_preprocessed_input/cpi_circuit.rs", L+"common_preprocessed_input/mod.rs", L+"parser.rs"],
  [("witness-free generator", L+"common_preprocessed_input/cpi_parser.rs: compute_common_preprocessed_input, prepare_generation"), ("prover's parser", L+"parser.rs: parse")],
  "Both sides are run on every enumerated equation and compared component by component; commitments recomputed in the exponent.")

N = "nova/src/"
prop("N01", "Relaxed R1CS satisfaction is decided exactly",
  "A pair of instance and witness is accepted as satisfying a relaxed R1CS if and only if every constraint holds with the given scalar and error vector over the vector of witness, public values and scalar, and both commitments open to the witness and error. Vectors of the wrong length never satisfy.",
  ["inputs", "programs"], "every R1CS, assignment, scalar, error vector and commitment",
  "One test checks one R1CS with one satisfying and one changed witness.",
  [N+"r1cs/mod.rs", N+"utils.rs"], [("check", N+"r1cs/mod.rs: is_r1cs_satisfied"), ("linear algebra", N+"utils.rs")],
  "All one-constraint relations and assignments over an alphabet, plus all changes of satisfying pairs of a family; reference over plain vectors and in the exponent.")
prop("N02", "Folding preserves satisfaction and rejects none of it",
  "Folding two pairs under any challenge yields the pair prescribed by the scheme: combined public values, scalar, witness, commitments, and an error vector combining both errors and the cross term. Folding satisfying pairs gives a satisfying pair, however often and in whatever order; a folded pair with an unsatisfying member satisfies only at the challenges the algebra allows.",
  ["inputs", "histories", "programs"], "every R1CS shape, pair of pairs, challenge and fold order",
  "One test folds one pair once; shapes with more constraints than variables, nonzero errors and repeated folds are not reached.",
  [N+"nifs/mod.rs", N+"nifs/nifs_prover.rs", N+"nifs/nifs_verifier.rs", N+"utils.rs", N+"r1cs/mod.rs"],
  [("cross term", N+"nifs/mod.rs: compute_t"), ("folding", N+"nifs/mod.rs: fold_witness, fold_instance"), ("prover", N+"nifs/nifs_prover.rs: prover"), ("verifier", N+"nifs/nifs_verifier.rs: verifier")],
  "Exhaustive over the relation family, pairs, challenges and chains; reference folds plain vectors.")
prop("N03", "A folding proof is accepted exactly when fold and openings are right",
  "Verification of a folding proof accepts if and only if the challenge is the one derived from the transcript, both instances and the cross-term commitment; the folded instance is their fold under it; and the two openings at the derived point are valid for the folded commitments. Every other proof is rejected.",
  ["inputs", "fault_sequences", "histories"], "every proof, three instances, cross-term commitment and earlier transcript",
  "One test verifies one honest proof.",
  [N+"nifs/nifs_verifier.rs", N+"nifs/nifs_prover.rs", N+"nifs/mod.rs", N+"transcript.rs"],
  [("challenge", N+"nifs/mod.rs: challenge; "+N+"nifs/nifs_verifier.rs: verify_challenge"), ("openings", N+"nifs/nifs_verifier.rs: verify_opening"), ("folded instance", N+"nifs/nifs_verifier.rs: verify")],
  "Simulated proofs built in the exponent and every change (every pair, thorough), repaired up to each level, judged by an independent verifier.")
prop("N04", "Honest incremental computation is accepted at every step",
  "Running the step function, folding and proving for any number of steps with satisfying witnesses succeeds; at every step the proof is accepted, and the state is the step function iterated from the initial state with the witnesses used. The public hash at each step is the one of step number, initial state, next state and next running instance.",
  ["histories", "inputs", "programs"], "every history of steps, witnesses, step functions, relations and initial states",
  "Two tests run three or four steps of one function with one relation.",
  [N+"ivc/ivc_prover.rs", N+"ivc/ivc_verifier.rs", N+"ivc/mod.rs", N+"circuit.rs", N+"nifs/mod.rs"],
  [("augmented circuit", N+"circuit.rs: run, next_step"), ("prover", N+"ivc/ivc_prover.rs: prove"), ("verifier", N+"ivc/ivc_verifier.rs: verify")],
  "Every history to the bound in lock step with a specification of states, instances and witnesses.")
prop("N05", "An IVC proof is accepted only for the step and state it proves",
  "A proof is accepted only if its latest instance carries, as its only public value, the hash of the verifier's step number, initial and current state and running instance, is a fresh unrelaxed instance, and its folding proof is right for them. A proof of one step, state or history is rejected for any other; at step zero only the initial state is accepted, and an accepted proof shows that the step function was followed by satisfying witnesses.",
  ["inputs", "fault_sequences", "histories"], "every proof and every verifier's view",
  "Tests verify honest proofs only.",
  [N+"ivc/ivc_verifier.rs", N+"circuit.rs", N+"nifs/nifs_verifier.rs"],
  [("checks", N+"ivc/ivc_verifier.rs: verify"), ("public hash", N+"circuit.rs: hash_io")],
  "Every change (every pair, thorough) of proof and view, repaired up to each level, judged in the exponent. That witnesses satisfy the relation and the step function ran is not shown by the library's proofs: two known findings.")
prop("N06", "The augmented step refuses wrong inputs and otherwise follows its rules",
  "Each run of the step circuit checks that the incoming instance carries exactly the hash of the present step, its states and the running instance given with it, and is unrelaxed; it refuses anything else (missing arguments included), and returns the hash for the next step; the counter, state and hash move only when told to move on after a run. Different steps, states or instances have different hashes.",
  ["histories", "inputs"], "every sequence of operations with right and wrong arguments",
  "Three tests run at most three steps with right arguments.",
  [N+"circuit.rs"], [("checks and folding in the circuit", N+"circuit.rs: run"), ("moving on", N+"circuit.rs: next_step"), ("hash", N+"circuit.rs: hash_io")],
  "Explicit-state lock-step of every operation sequence to depth 5 (6) against a state machine.")
prop("N07", "The trivial pair satisfies every relation and folds neutrally",
  "The trivial instance and witness of a given size satisfy every R1CS of that size, and folding them with any pair, in either position and under any challenge, gives a pair that satisfies exactly when the other one does, or the challenge removes it.",
  ["inputs", "programs"], "every relation, size, partner and challenge",
  "One test starts IVC from a trivial pair with one relation.",
  [N+"r1cs/mod.rs", N+"nifs/mod.rs"], [("trivial pair", N+"r1cs/mod.rs: create_trivial_pair, new_trivial_witness")],
  "Against all one-constraint relations and the family.")
prop("N08", "The vector and matrix helpers compute what they are named after",
  "The product of a matrix and a vector, the entrywise product, the multiple of a vector, sums and differences of vectors, and the lifting of integers into the field are those of linear algebra for every size and value, the empty ones included. Vectors of different lengths are never equal, and adding or subtracting them is refused.",
  ["inputs"], "every size, vector, matrix and integer",
  "Tests use the helpers inside one or two fixed relations of dense small shapes.",
  [N+"utils.rs"], [("linear algebra", N+"utils.rs")],
  "All small vectors and matrices over an alphabet, all sizes to the bound in four patterns, against definitions.")
prop("T01", "Transcripts bind challenges to everything absorbed before",
  "A challenge is a function of all messages absorbed before it, in order, and of the challenges drawn since; it changes when any message is changed, added, dropped or moved. Drawing without having absorbed anything new is refused where the interface promises it; drawing lists, single values or indices and copying transcripts is consistent.",
  ["histories", "inputs"], "every sequence of absorb, draw and copy operations, every message",
  "Tests draw from two or three fixed sequences.",
  [N+"transcript.rs", F+"fiat_shamir/transcript.rs", L+"challenge.rs"],
  [("folding transcript", N+"transcript.rs"), ("FRI transcript", F+"fiat_shamir/transcript.rs"), ("PLONK challenges (through prover and verifier)", L+"challenge.rs")],
  "Every operation sequence to depth 5 (6) against a reference, every pair of absorption histories compared. PLONK's transcript is private and decided through P01 and P03.")

prop("S01", "No answer depends on what was computed before",
  "What a setup, commitment, opening, prover, verifier, compiler, parser, transcript or helper answers is a function of its arguments (and fresh entropy) alone: no call made before, in the same thread or another, with the same arguments, similar ones or wrong ones, accepted, rejected or refused, changes the answer of a later call. Right proofs stay accepted and wrong ones rejected however often and in whatever order they are made and verified, and what must be fresh is fresh each time.",
  ["histories", "schedules", "inputs"], "every sequence of calls in any number of threads, of any length",
  "Each test makes one or two calls in an order of its own; a stale cache, a counter or a once-initialised global needs a second call with other arguments, or many calls.",
  [K+"scheme.rs", K+"srs.rs", F+"prover.rs", F+"verifier.rs", F+"fiat_shamir/transcript.rs", L+"prover.rs", L+"verifier.rs", L+"parser.rs", L+"circuit.rs", L+"challenge.rs", L+"common_preprocessed_input/cpi_parser.rs", N+"nifs/mod.rs", N+"ivc/ivc_verifier.rs", N+"circuit.rs", N+"transcript.rs"],
  [("entry points", K+"scheme.rs: commit, open, verify; "+F+"prover.rs: generate_proof; "+F+"verifier.rs: verify; "+L+"prover.rs: generate_proof; "+L+"verifier.rs: verify; "+L+"parser.rs: parse; "+N+"nifs, "+N+"ivc")],
  "Each history runs in a process of its own and every answer is compared with the answer of the same call alone. Threads are switched between calls only.")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["tests"],
            anchors=dict(files=p["files"], mechanism=p["mech"], hook_needed=None))) + "\n")

TECH = "stateless explicit enumeration of executions of the real crates, compared with a reference model on every trace"
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bash run.sh build",
        checks=[dict(property=p["id"], quick_cmd=f"bash run.sh check {p['id']} quick", thorough_cmd=f"bash run.sh check {p['id']} thorough",
                     technique=TECH, level="model_checking", level_note=p["note"]) for p in P],
        not_applicable=[],
        notes="No hooks: the checks use the crates' public API only. Bounds are in the evidence files; known findings in known_findings.txt."), f, indent=1)
    f.write("\n")
