NA = {
    'C07': 'not claimed: the Brainpool procedures draw their whole state from a SHA-1 digest chain over multi-limb field elements and search until a square-root condition holds; encoded exactly, the digest and 160-bit and wider modular arithmetic exceed the solver, and with the digest left arbitrary the property (conformance to the published procedure) reduces to a transcription of the code itself',
    'C08': 'not claimed: same obstacle as C07; the digest arithmetic it shares with the ANSI procedure is decided under C06 and C10',
    'C16': "not claimed: parsing is done by glibc's argp and regcomp/regexec, whose code is not part of this repository and cannot be encoded; with both replaced by models the remaining code is one assignment per option, so a verdict would be about the models. How the settings are then used is decided under C02",
    'C17': "not claimed: the writer is built on GENtostr and parson's serialiser (an external library compiled in), and equality of the printed decimal or hexadecimal text with the number is a statement about PARI's printing code, which is only available as a binary library",
    'C19': 'not claimed: the list is delimited by comparing a product of primes with the square of a curve order; the interesting orders need multi-limb products over dozens of primes, which the value model of PARI integers used here does not reach',
    'C20': "not claimed: depends on the unbounded random search over curves and on C19's list; the selection of a point of exactly the prime order, which is its core, is decided under C05",
    'C21': "not claimed: the worker threads share PARI's per-thread stacks (pari_thread_start and friends), which exist only in the binary library; an encoding of the interleavings without them would drop exactly the shared state at stake. Reading the code showed that one worker's curve can be taken for two primes; this is recorded in DESIGN.md as not covered",
    'C26': "not claimed: the order of the curve follows from the theory of complex multiplication (class polynomials, Cornacchia), computed by PARI's polclass and polrootsmod in the binary library; no finite encoding of the calling code decides it",
    'C27': 'not claimed: same obstacle as C26; only the acceptance of an anomalous curve is decided, under C04',
    'C29': "not claimed: the family polynomials are GP source text compiled and evaluated by PARI's interpreter in the binary library, so the arithmetic the property is about is not in any C this family of technique can encode; the remaining C only stores and calls the closures",
}
c("C01", "Generation pipeline order, back-off, retry and failure",
  "A curve is produced only after every stage has succeeded, in order, on the state left by the stages before it and every validator of every stage has accepted it; a stage or validator that rejects sends the run back exactly as far as it asked, undoing the stages in between. An unrecoverable stage error or an exhausted retry limit ends the run with a failure, never with a curve.",
  "histories inputs fault_sequences", "every sequence of stage and validator outcomes, retry limit, start and end stage",
  "Tests run one or two fixed sequences of outcomes; the guarantee is over every sequence of successes, rejections, timeouts and errors.",
  "src/exhaustive/exhaustive.c src/exhaustive/check.c", [("stage executor", "src/exhaustive/exhaustive.c")], "which stages run on which state;return value;output")
c("C02", "Options select the procedure they name and ignored options are reported",
  "For every accepted combination of command-line options each stage of the run uses the procedure, argument, validator and undo step the options ask for. An option that was given but plays no part in the run is reported on standard error, and one that was honoured is not.",
  "configurations", "every combination of method, field, seed, family, randomness and option flags",
  "Tests cover a few dozen of the thousands of combinations.",
  "src/exhaustive/exhaustive.c src/misc/config.c src/ecgen.c", [("stage table set-up", "src/exhaustive/exhaustive.c"), ("unused option report", "src/misc/config.c")], "stage table;standard error")
c("C03", "The order stage records the true group order and enforces the requested kind",
  "When the order stage succeeds, the order recorded for the curve (and cached for later computations) is the number of points of that curve and has the requested form: prime, the given cofactor times a prime, or with no prime factor above the given bit length. A curve of the requested kind is never refused, one of another kind sends the run back to redraw the equation, and the security checks on the order accept exactly the orders above their limits.",
  "inputs", "every curve group order and every option value",
  "Tests use a handful of curves; the decision must be right for each group order, including boundary orders.",
  "src/gen/order.c src/math/koblitz.c", [("order generators", "src/gen/order.c"), ("order checks", "src/gen/order.c")], "order in the output;acceptance of the curve")
c("C04", "Generator stage: generators, their orders and cofactors are correct",
  "Every subgroup listed has a generator that is a point of the curve with exactly the order given and cofactor equal to the curve order divided by it; together the generators span the group, a unique generator is given only for cyclic groups, and with a requested cofactor the first subgroup has the order of the curve divided by that cofactor. The anomalous and embedding degree checks accept exactly the curves that satisfy them.",
  "inputs", "every group structure Z/n1 x Z/n2 and cofactor",
  "Tests use a few mostly cyclic curves.", "src/gen/gens.c src/obj/subgroup.c src/obj/point.c", [("generator stage", "src/gen/gens.c")], "subgroups in the output")
c("C05", "Points stage: listed points have the stated orders and cover the request",
  "For the prime, nonprime and all requests, every subgroup order of that kind dividing a generator's order is listed exactly once with a point of exactly that order; for random requests exactly the requested number of affine points of the curve, each with its true order, is listed; for small-prime requests a point of each requested prime order that exists.",
  "inputs", "every generator order (factorisation shape and primes), group shape and random draw",
  "Divisor enumeration depends on the factorisation shape of the order, and random draws are only sampled by tests.",
  "src/gen/point.c src/math/subgroup.c src/obj/point.c", [("points stage", "src/gen/point.c"), ("divisor enumeration", "src/math/subgroup.c")], "points in the output")
c("C06", "ANSI X9.62 curves are derived from their seed as the standard prescribes",
  "For a given seed and field the curve coefficients are those the ANSI X9.62 procedure derives from the seed, over prime and binary fields, so that anyone can recompute and verify them; only seeds of at least 160 bits are accepted and an unusable seed is replaced, never silently used.",
  "inputs", "every seed, field size and hash value", "Tests check a few standard vectors; truncation, padding and counter carries depend on bit lengths and rare values.",
  "src/exhaustive/ansi.c src/util/bits.c lib/sha1/sha1.c", [("ANSI seed and equation stages", "src/exhaustive/ansi.c")], "a, b and seed in the output")
c("C07", "Brainpool curves are derived from their seed as the procedure prescribes",
  "For a given seed the field prime, the coefficients and the generator are those of the published Brainpool procedure, including the congruence and residue conditions on the prime and coefficients, the ordering of candidates and the successive seed increments, and the derived seeds reported are those used.",
  "inputs histories", "every seed, bit size and hash value sequence", "Tests check a few standard vectors.",
  "src/exhaustive/brainpool.c src/util/bits.c", [("Brainpool stages", "src/exhaustive/brainpool.c")], "field, a, b, generator in the output")
c("C08", "RFC 5639 curves are derived from their seed as the RFC prescribes",
  "For a given seed the coefficients are those obtained by the RFC 5639 variant: a and b come from successive seeds, the first candidate a passing the quartic condition and the first non-square b are used.",
  "inputs histories", "every seed, bit size and hash value sequence", "Tests check a few standard vectors.",
  "src/exhaustive/brainpool_rfc.c src/exhaustive/brainpool.c", [("RFC stages", "src/exhaustive/brainpool_rfc.c")], "a, b in the output")
c("C09", "NUMS curves follow the deterministic procedure",
  "The NUMS field is the largest prime of the requested size below the power of two congruent to 3 modulo 4, a is p-3 and the coefficient b takes successive positive values from 1 upwards until the curve and its twist have prime orders with the curve order smaller than the prime; the procedure takes no input and gives the same curve every time.",
  "inputs histories", "every bit size and outcome of each candidate", "Tests check standard sizes only.",
  "src/exhaustive/nums.c", [("NUMS stages", "src/exhaustive/nums.c")], "field, a, b, order, generator in the output")
c("C10", "SHA-1 digests are correct for every message and chunking",
  "The digest of a byte string equals the SHA-1 function of FIPS 180 for every content and length, no matter how the message is split into pieces.",
  "inputs", "every message up to the bound and every split", "Tests use a few vectors; padding boundaries and chunk splits are unbounded.",
  "lib/sha1/sha1.c src/exhaustive/ansi.c", [("SHA-1", "lib/sha1")], "derived seeds")
c("C11", "Bit string conversions are exact",
  "Converting between integers, hexadecimal, binary, raw bytes and bit strings preserves value, length and sign exactly; unused trailing bits are always zero and parsing followed by printing gives the same string back.",
  "inputs", "every value and every bit length, including lengths not divisible by eight",
  "Tests convert a few constants; padding errors need particular lengths and values.", "src/util/bits.c", [("bit strings", "src/util/bits.c")], "conversion results")
c("C12", "Bit string operations agree with their mathematical definition",
  "And, or, xor, not, concatenation, shifts, rotations, slicing, lengthening, shortening, comparison, bit access and random generation of bit strings give exactly the bits their definition prescribes for every length and content, leave non-destroyed operands unchanged and never touch memory outside the strings.",
  "inputs", "every content, length, index and shift amount", "Tests use a few constants and byte-multiple lengths.", "src/util/bits.c", [("bit string operations", "src/util/bits.c")], "resulting bit strings")
c("C13", "Random values lie in their stated ranges",
  "Random integers and primes of a given bit size lie in the documented range from 2^(bits-1) to 2^bits and primes are prime, random elements of a half-open range lie in it, and random field elements are elements of that field, for every bit size, range and state of the generator.",
  "inputs schedules", "every range and every generator output", "Tests sample; a boundary value is drawn with negligible probability.",
  "src/util/random.c", [("random helpers", "src/util/random.c")], "drawn values")
c("C14", "Field elements and field parameters are represented faithfully",
  "Turning an integer or bit mask into an element of a prime or binary field and back gives the same value, every distinct element has a distinct representation below the field size, and the reduction polynomial parameters reported describe the field polynomial.",
  "inputs", "every field element and every trinomial or pentanomial", "Tests use a few fields and elements.", "src/gen/field.c", [("field element conversion", "src/gen/field.c")], "field and coefficients in the output")
c("C15", "User input is parsed exactly and invalid field input is refused",
  "Numbers read from input are parsed exactly as written (decimal, hexadecimal, sign) and refused when larger than the field size; a field is accepted only if its modulus is prime of the requested kind, or its exponents describe an irreducible polynomial of the requested degree, and coefficients become elements of that field. At the end of the input the program stops with an error instead of continuing with made-up values.",
  "inputs", "every input text up to the bound", "Tests feed a few well-formed inputs.", "src/io/input.c src/gen/field.c src/gen/equation.c", [("input parsing", "src/io/input.c"), ("field input", "src/gen/field.c")], "accepted values;error messages")
c("C16", "Command line values are parsed exactly and contradictory options refused",
  "Each option sets exactly the setting it names to the value written, with memory and time suffixes scaled as documented; malformed values and contradictory combinations (two fields, two methods, two order constraints, a method unavailable over the field) are refused.",
  "inputs configurations", "every option, argument text up to the bound and combination", "Tests cover selected invocations.", "src/io/cli.c", [("option parser", "src/io/cli.c")], "settings;exit status")
c("C17", "JSON output is well formed and states exactly the generated curve",
  "The output for any number of curves is one JSON array whose entries give every parameter of the generated curve, and only those, with its exact value in the documented notation: field, seed, coefficients, order, subgroups, points and requested metadata.",
  "inputs", "every curve, number of curves and option set", "Tests parse a few outputs.", "src/io/output.c", [("JSON writer", "src/io/output.c")], "standard output;output file")
c("C18", "Copies of curves are complete and independent, and freeing is safe",
  "A copy of a curve, subgroup, point or seed carries the same data as the original and shares no memory with it, so that changing or freeing one never affects the other; freeing releases everything exactly once and clears the handle.",
  "histories inputs", "every object shape and order of operations", "Tests copy a few objects; aliasing only shows when one copy outlives the other.", "src/obj/curve.c src/obj/subgroup.c src/obj/point.c src/gen/seed.c src/util/memory.c", [("object life cycle", "src/obj")], "object contents after copy and free")
c("C19", "Invalid-curve prime list covers exactly the requested primes",
  "Without a range, the primes for which invalid curves are sought are the smallest ones whose product exceeds the square of the original curve order; with a range they are exactly the primes in the range; the original curve's primes never cause a loss and the list is ascending without duplicates.",
  "inputs", "every curve order and range", "Tests check one curve.", "src/invalid/invalid.c", [("prime list", "src/invalid/invalid.c")], "primes of the emitted curves")
c("C20", "Invalid curves have the promised small-order points",
  "Every curve emitted in invalid mode lies over the original field with the original a, differs from the original curve only in b, and lists for each prime it serves a point of exactly that prime order; every prime of the list is served exactly once unless the run is reported as failed.",
  "inputs histories", "every group order of each tried curve and every prime list", "Tests run one invalid generation.", "src/invalid/invalid.c src/gen/point.c", [("invalid generation", "src/invalid/invalid.c")], "emitted curves")
c("C21", "Threaded invalid generation emits the same kind of complete, uncorrupted set",
  "With any number of threads and any interleaving the set of primes served by emitted curves is the requested one, no prime is served twice, each emitted curve is complete and correct and the output stays one well formed JSON array.",
  "schedules histories", "every interleaving of the worker threads", "Tests run one schedule.", "src/invalid/invalid_thread.c src/invalid/invalid.c", [("worker hand-over", "src/invalid/invalid_thread.c")], "emitted curves",
  [("generated", "state of each prime", "src/invalid/invalid_thread.c")])
c("C22", "Built-in reduction polynomials are irreducible and of the stated degree",
  "For every binary field size offered, the built-in polynomial exists and has exactly that degree, three or five terms with distinct middle exponents below it, and is irreducible over GF(2), so the generated structure is a field.",
  "inputs", "every table entry", "Tests look up a few sizes.", "src/math/poly.c src/gen/field.c", [("polynomial table", "src/math/poly.c")], "field in the output")
c("C23", "Known Koblitz curve orders are the true orders",
  "For every binary field size and coefficient for which a built-in Koblitz curve order is used, it equals the number of points of that curve.",
  "inputs", "every table entry", "Tests cover none or a few entries.", "src/math/koblitz.c", [("order table", "src/math/koblitz.c")], "order in the output")
c("C24", "Hex check accepts exactly the curves containing the string",
  "With a hex string requested, a curve is accepted exactly when the string occurs (ignoring case) in the hexadecimal expansion of one of its parameters; otherwise the run goes back to generate a new one, and the check neither corrupts nor leaks the parameters.",
  "inputs", "every parameter value and search string", "Tests check one string.", "src/gen/hex.c", [("hex check", "src/gen/hex.c")], "accepted curves")
c("C25", "Timeouts abandon the stage cleanly and never fire outside it",
  "If a time limit is set, every stage attempt runs under a fresh timer that is disarmed and deleted before the next step whether it succeeded, failed or timed out; a timed-out stage makes the run restart from its first stage with everything undone, and no timer acts when no limit is set.",
  "schedules fault_sequences", "every stage outcome and expiry point", "Tests cannot place the expiry.", "src/util/timeout.c src/util/timeout.h src/exhaustive/exhaustive.c", [("stage timer", "src/util/timeout.h")], "timer calls;stages run")
c("C26", "Complex multiplication yields a curve of the requested order",
  "When generation with a given order succeeds, the curve is defined over a prime field of the requested size and has exactly that many points, for prime orders and for orders given as factors.",
  "inputs", "every order, candidate prime and class polynomial root", "Tests use a few orders.", "src/cm/cm.c src/cm/cm_any.c src/cm/cm_prime.c src/cm/p1363.c", [("CM method", "src/cm")], "order and field in the output")
c("C27", "Anomalous curves have as many points as the field",
  "A curve generated in anomalous mode is over a prime field of the requested size and its order equals the field prime.",
  "inputs", "every candidate prime and twist", "Tests run a few sizes.", "src/cm/anomalous.c", [("anomalous construction", "src/cm/anomalous.c")], "order in the output")
c("C28", "Supersingular curves have order p+1",
  "A curve generated in supersingular mode is over the chosen prime field and has trace zero: its order is the prime plus one.",
  "inputs", "every prime and residue class", "Tests run a few sizes.", "src/cm/supersingular.c", [("supersingular construction", "src/cm/supersingular.c")], "order in the output")
c("C29", "Pairing-friendly families follow their published polynomials",
  "For each family the field prime, subgroup order and trace are the values of the family's published polynomials at the seed, the seed is rejected when they are not prime, and the curve accepted has the published order.",
  "inputs", "every seed", "Tests use one published seed per family.", "src/exhaustive/family.c", [("family polynomials", "src/exhaustive/family.c")], "field, order in the output")
c("C30", "Curve metadata is computed correctly",
  "The j-invariant, discriminant, trace of Frobenius, embedding degree, CM discriminant and conductor reported are those of the generated curve, over prime and binary fields.",
  "inputs", "every curve", "Tests check one curve.", "src/gen/metadata.c", [("metadata stage", "src/gen/metadata.c")], "meta in the output")
c("C31", "String helpers",
  "Joining and concatenating strings gives exactly the pieces in order with a separator between consecutive ones, counting characters and recognising hexadecimal strings are exact, for every number and content of pieces, without touching memory outside them.",
  "inputs", "every list of strings", "Tests use a few lists.", "src/util/str.c", [("string helpers", "src/util/str.c")], "resulting strings")
c("C32", "Curve stage builds exactly the curve y^2=x^3+ax+b or y^2+xy=x^3+ax^2+b",
  "The curve constructed over a prime or binary field has the coefficients chosen for it and is never singular; a singular equation sends the run back, and in twist mode the curve is a twist of the given one over the same field with the recorded coefficients matching it.",
  "inputs", "every field, a and b", "Tests use a few equations.", "src/gen/curve.c src/math/twists.c src/gen/equation.c", [("curve stage", "src/gen/curve.c"), ("twists", "src/math/twists.c")], "a and b in the output")
c("C33", "Memory helpers fail loudly and never return unusable memory",
  "The allocation helpers return usable memory of the requested size (zeroed or copied where promised) or end the program with an error; they never return null, and vectors of objects have exactly the requested length.",
  "inputs fault_sequences", "every size and every allocation failure", "Tests cannot fail an allocation.", "src/util/memory.c", [("allocation helpers", "src/util/memory.c")], "returned memory;exit status")
