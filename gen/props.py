TECH = "abstract interpretation of Go SSA (value numbering in a polynomial-ring normal form) over a finite family of structural shapes"
NOTE = ("Every branch, loop and call the analysed entry points reach in /repo is interpreted on abstract values: ring elements, keys, noise, messages and moduli are symbolic, "
        "only the structure (number of primes, digit grouping, parties, levels) is fixed to the shapes listed in the evidence. Trusted: the transfer functions for the lattigo ring, sampler and encoder "
        "primitives (DESIGN.md, section 3) and that behaviour does not depend on structure beyond the shapes. ")
PROPS = [
 dict(id="C04", title="Sums and differences of ciphertexts decrypt to sums and differences",
  st="Adding or subtracting two ciphertexts of any party sets, levels and scales gives a ciphertext over the union of the parties, at the lower level and the larger scale, that decrypts to exactly the sum or difference of the two decrypted values (operands whose scales differ by an integer factor are aligned by that factor). This holds whichever operand has more parties, a higher level or a larger scale, and also when both operands are the same object.",
  q=(["inputs", "configurations"], "every pair of ciphertexts over every pair of party sets, levels and scales, for both schemes"),
  why="The tests add two ciphertexts over equal party sets at the maximum level with equal scales for BFV and never subtract or add CKKS ciphertexts of different levels, scales or party sets.",
  a=dict(files=["mkckks/evaluator.go", "mkbfv/evaluator.go"],
    state=[("Ciphertext.Value", "one ring element per involved party plus the constant component", "mkrlwe/elements.go"), ("Ciphertext.Scale", "CKKS scaling factor", "mkckks/elements.go")],
    mech=[("mkckks.Evaluator.AddNew/SubNew/evaluateInPlace", "mkckks/evaluator.go"), ("mkbfv.Evaluator.AddNew/SubNew", "mkbfv/evaluator.go")],
    obs=["phase, level, scale and party set of the returned ciphertext"]),
  note=NOTE + "Equality is exact; scales are compared as expressions in the moduli."),
 dict(id="C05", title="CKKS products decrypt to products",
  st="Multiplying two CKKS ciphertexts over any party sets, levels and scales with relinearization gives a ciphertext over the union of the parties that decrypts, with the parties' secret keys, to the product of the two decrypted values up to key-switching and rounding error. The result has been rescaled as often as its scale allows, its recorded scale is the product of the scales divided by the removed primes, and its level is the lower level minus the number of removed primes.",
  q=(["inputs", "configurations"], "every pair of ciphertexts, key set, level pair and scale pair; plain, hoisted and squaring entry points; scheme-independent key switcher at every level"),
  why="The tests only square one ciphertext at the maximum level with default scale and one digit grouping and compare decrypted values within a tolerance for sampled messages.",
  a=dict(files=["mkckks/evaluator.go", "mkrlwe/keyswitch.go", "mkrlwe/keyswitch_hoisted.go"],
    state=[("RelinearizationKey.Value", "the three gadget vectors b, d, v", "mkrlwe/keys.go")],
    mech=[("mkckks.Evaluator.MulRelinNew/MulRelinHoistedNew", "mkckks/evaluator.go"), ("mkrlwe.KeySwitcher.MulAndRelin", "mkrlwe/keyswitch.go"), ("mkrlwe.KeySwitcher.MulAndRelinHoisted", "mkrlwe/keyswitch_hoisted.go")],
    obs=["phase, level, scale and party set of the returned ciphertext"]),
  note=NOTE + "The error is shown to consist of terms that are each small against the special modulus; no numeric bound on their sum is given."),
 dict(id="C06", title="BFV products decrypt to products",
  st="Multiplying two BFV ciphertexts over any party sets with relinearization gives a ciphertext over the union of the parties that decrypts to the product of the two plaintexts modulo the plaintext modulus, that is, the tensor product is scaled down by T/Q with rounding and only key-switching and rounding errors are added. This holds for any two operands, for a ciphertext multiplied with itself and for operands whose party sets overlap partly.",
  q=(["inputs", "configurations"], "every pair of ciphertexts and party sets, and every number of ciphertext and special primes the shapes stand for; hoisted and plain key switching"),
  why="The tests multiply sampled messages under one parameter set with one digit per prime and never use the plain (non-hoisted) product.",
  a=dict(files=["mkbfv/evaluator.go", "mkbfv/keyswitch.go", "mkbfv/keyswitch_hoisted.go", "mkbfv/basis_extension.go"],
    state=[("RelinearizationKey.Value", "two gadget vectors per half of the extended modulus", "mkbfv/keys.go")],
    mech=[("mkbfv.Evaluator.MulRelinNew", "mkbfv/evaluator.go"), ("mkbfv.KeySwitcher.MulAndRelinBFV", "mkbfv/keyswitch.go"), ("mkbfv.KeySwitcher.MulAndRelinBFVHoisted", "mkbfv/keyswitch_hoisted.go"), ("mkbfv.FastBasisExtender", "mkbfv/basis_extension.go")],
    obs=["phase and party set of the returned ciphertext"]),
  note=NOTE + "The auxiliary modulus is treated as an independent modulus; the rounding terms of the base extensions are tracked as integer lifts and must cancel or be small."),
 dict(id="C07", title="Rotation applies the slot rotation for every rotation amount",
  st="Rotating a ciphertext of either scheme by any integer amount, positive, negative, zero or larger than the number of slots, with the default rotation keys decrypts to the original value under the corresponding Galois automorphism, up to key-switching error. Parties, level and scale are kept, and the plain and the hoisted entry points agree.",
  q=(["inputs", "configurations"], "every ciphertext, party set, level and rotation amount"),
  why="No test rotates a ciphertext.",
  a=dict(files=["mkckks/evaluator.go", "mkbfv/evaluator.go", "mkrlwe/keyswitch.go", "mkrlwe/keyswitch_hoisted.go", "mkrlwe/keygen.go"],
    state=[("RotationKeySet", "keys by party and rotation index", "mkrlwe/keys.go")],
    mech=[("Evaluator.RotateNew/RotateHoistedNew", "mkckks/evaluator.go"), ("KeySwitcher.Rotate", "mkrlwe/keyswitch.go"), ("KeySwitcher.RotateHoisted", "mkrlwe/keyswitch_hoisted.go"), ("KeyGenerator.GenRotationKey", "mkrlwe/keygen.go")],
    obs=["phase, level, scale and party set of the returned ciphertext"]),
  note=NOTE + "Rotation amounts are enumerated over more than two periods of the analysed ring degree."),
 dict(id="C08", title="Conjugation applies complex conjugation at every level",
  st="Conjugating a ciphertext at any level, over any party set, decrypts with the parties' secret keys to the original value under the conjugation automorphism, up to key-switching error. Parties, level and scale are kept.",
  q=(["inputs", "configurations"], "every ciphertext, party set and level"),
  why="No test conjugates a ciphertext.",
  a=dict(files=["mkckks/evaluator.go", "mkbfv/evaluator.go", "mkrlwe/keyswitch.go", "mkrlwe/keygen.go"],
    state=[("ConjugationKeySet", "keys by party", "mkrlwe/keys.go")],
    mech=[("Evaluator.ConjugateNew", "mkckks/evaluator.go"), ("KeySwitcher.Conjugate", "mkrlwe/keyswitch.go"), ("KeyGenerator.GenConjugationKey", "mkrlwe/keygen.go")],
    obs=["phase, level, scale and party set of the returned ciphertext"]),
  note=NOTE),
]
PROPS_A = [
 dict(id="C01", title="Encryption followed by decryption returns the message",
  st="For every message, every party and every level, decrypting a fresh ciphertext with the party's secret key returns the message in every slot, up to the encryption error: the ciphertext is the encoded message plus small fresh noise under the public key, and the decryptor evaluates c_0 + sum c_i*s_i over all involved parties. This holds for plaintexts and ciphertexts in either domain, for every level and every number of slots, for messages with fewer entries than slots (zeros follow), for repeated use of the same encryptor and decryptor, and for ciphertexts of several parties.",
  q=(["inputs", "configurations", "histories"], "every message, party set, level, slot count, domain flag and order of encryptions and decryptions, in all three schemes"),
  why="The tests encrypt sampled messages at the maximum level with one parameter set and compare within a tolerance; other levels, domains, slot counts and reused objects are not exercised.",
  a=dict(files=["mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkckks/encryptor.go", "mkckks/decryptor.go", "mkbfv/encryptor.go", "mkbfv/decryptor.go"],
    state=[("Encryptor, Decryptor pools", "temporary polynomials reused between calls", "mkrlwe/encryptor.go")],
    mech=[("mkrlwe.Encryptor.Encrypt/EncryptNew", "mkrlwe/encryptor.go"), ("mkrlwe.Decryptor.Decrypt/PartialDecrypt", "mkrlwe/decryptor.go"), ("mkckks.Encryptor/Decryptor", "mkckks/decryptor.go"), ("mkbfv.Encryptor/Decryptor", "mkbfv/decryptor.go")],
    obs=["decrypted message", "level, scale, domain flag and party set of the ciphertext"]),
  note=NOTE + "The encoders of lattigo are trusted to be inverse to each other; noise terms are shown to be fresh and small, no failure probability is computed."),
 dict(id="C02", title="Joint decryption through partial decryptions equals decryption with all keys",
  st="For a ciphertext of several parties, the parties' partial decryptions applied in any order, each exactly once, leave the same value that decryption with all secret keys returns, and remove each party's component as they are applied. A partial decryption touches only the constant component and its own party's component.",
  q=(["inputs", "schedules", "configurations"], "every ciphertext, party set and order of partial decryptions"),
  why="The tests decrypt with a complete key set; no test performs partial decryptions separately or in different orders.",
  a=dict(files=["mkrlwe/decryptor.go"], state=[("Ciphertext.Value", "components by party", "mkrlwe/elements.go")],
    mech=[("mkrlwe.Decryptor.PartialDecrypt", "mkrlwe/decryptor.go"), ("mkrlwe.Decryptor.Decrypt", "mkrlwe/decryptor.go")],
    obs=["components of the ciphertext after each partial decryption", "decrypted plaintext"]),
  note=NOTE),
 dict(id="C03", title="Missing or wrong key material is refused, never silently misused",
  st="Whenever an operation lacks a key it needs - a secret key of an involved party, a relinearization, rotation or conjugation key, a common reference string - or the hoisted form of a component is missing, it stops with a panic or error and returns no result. No operation continues with the remaining keys and returns a value that looks valid.",
  q=(["inputs", "configurations", "fault_sequences"], "every operation with every subset of missing keys"),
  why="No test leaves out a key.",
  a=dict(files=["mkrlwe/keys.go", "mkrlwe/decryptor.go", "mkrlwe/keyswitch.go", "mkbfv/decryptor.go", "mkbfv/keys.go"],
    state=[("SecretKeySet, RelinearizationKeySet, RotationKeySet, ConjugationKeySet", "keys by party", "mkrlwe/keys.go")],
    mech=[("GetRelinearizationKey, GetRotationKey, GetConjugationKey, GetSecretKey", "mkrlwe/keys.go"), ("mkbfv.Decryptor.Decrypt", "mkbfv/decryptor.go")],
    obs=["whether the call returns"]),
  note=NOTE + "Refusal means that no path of the abstract execution returns normally."),
 dict(id="C10", title="Multiplication by plaintexts and constants multiplies the message",
  st="Multiplying a ciphertext by a plaintext, or by an integer, real or complex constant, gives a ciphertext over the same parties that decrypts to the product of the value with the plaintext or constant. The recorded scale is the product of the scales (divided by removed primes where the call rescales), the level is kept or lowered accordingly, and neither the domain of the ciphertext nor the choice of the receiver changes the result.",
  q=(["inputs", "configurations"], "every ciphertext, plaintext, constant of each supported type, level, scale, domain and receiver"),
  why="No test multiplies by a plaintext or a constant.",
  a=dict(files=["mkckks/evaluator.go", "mkrlwe/keyswitch.go"], state=[("Ciphertext.Scale", "CKKS scaling factor", "mkckks/elements.go")],
    mech=[("mkckks.Evaluator.MultByConst", "mkckks/evaluator.go"), ("mkckks.Evaluator.MulPtxtNew", "mkckks/evaluator.go")],
    obs=["phase, level, scale and party set of the receiver"]),
  note=NOTE + "Constants are sampled from the types and magnitudes the code distinguishes (at most 2^53); the plaintext is at least at the level of the ciphertext."),
 dict(id="C11", title="Rescaling and level changes keep the message",
  st="Rescaling divides the value and the recorded scale by the same removed primes, at most down to level zero and only while the scale stays at least half the requested one; dropping levels keeps the value and the scale. This holds for every level, scale, party set and receiver, including the operand itself as the receiver, and rescaling at level zero is refused without touching the ciphertext.",
  q=(["inputs", "configurations"], "every ciphertext, level, scale, minimum scale and receiver"),
  why="The tests rescale only implicitly, once, at the maximum level.",
  a=dict(files=["mkckks/evaluator.go"], state=[("Ciphertext.Scale", "CKKS scaling factor", "mkckks/elements.go")],
    mech=[("mkckks.Evaluator.Rescale", "mkckks/evaluator.go"), ("mkckks.Evaluator.DropLevel/DropLevelNew", "mkckks/evaluator.go")],
    obs=["phase, level, scale and party set of the receiver"]),
  note=NOTE + "Each division by a prime is exact up to one rounding term with the same value modulo every remaining prime."),
]
PROPS_B = [
 dict(id="C12", title="Operations leave operands, keys and parameters unchanged",
  st="No operation changes what it only reads. After encoding, encrypting, decrypting, generating a key, adding, subtracting, multiplying, rotating, conjugating, rescaling or copying, every operand ciphertext, plaintext, message, key, key set and parameter object holds exactly what it held before; only the receiver named by the call and private scratch memory differ. The exception is PartialDecrypt, whose ciphertext is its receiver.",
  q=(["inputs", "configurations", "histories"], "every operation of all three schemes on operands of differing levels, scales and party sets, on fresh and on used objects"),
  why="The tests never compare an operand, key or key set before and after a call; an operand scaled or transformed in place still decrypts within their tolerance or is not used again.",
  a=dict(files=["mkrlwe/keyswitch.go", "mkrlwe/keyswitch_hoisted.go", "mkrlwe/keygen.go", "mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkckks/evaluator.go", "mkbfv/evaluator.go", "mkbfv/keyswitch.go"],
    state=[("Ciphertext.Value, Ciphertext.Scale, key polynomials", "what callers keep using after a call", "mkrlwe/elements.go")],
    mech=[("mkckks.Evaluator", "mkckks/evaluator.go"), ("mkbfv.Evaluator", "mkbfv/evaluator.go"), ("mkrlwe.KeySwitcher", "mkrlwe/keyswitch.go"), ("Encryptor, Decryptor, KeyGenerator", "mkrlwe/keygen.go")],
    obs=["content of every operand, key and parameter before and after each call"]),
  note=NOTE + "Two consecutive runs of each operation are compared. The scratch memory that relinearization key sets own is excepted."),
 dict(id="C13", title="Results share no memory with operands, keys or working memory",
  st="A ciphertext, plaintext, message or key that a call returns owns its memory: it shares no polynomial, coefficient row, map or metadata with operands, keys, parameters, the working memory of the object that made it, or results returned earlier, and its own parts share none with each other. So no later call on the same or another object changes a result the caller holds, and changing a result changes nothing else.",
  q=(["inputs", "configurations", "histories"], "every operation of all three schemes, on fresh and on used objects, followed by further calls"),
  why="Aliasing shows only when a caller holds a result across later calls or modifies it; the tests decrypt each result immediately.",
  a=dict(files=["mkrlwe/elements.go", "mkckks/elements.go", "mkbfv/elements.go", "mkckks/evaluator.go", "mkbfv/evaluator.go", "mkrlwe/keygen.go", "mkrlwe/decryptor.go"],
    state=[("evaluator, encryptor and decryptor pools", "temporary polynomials reused between calls", "mkrlwe/keyswitch.go")],
    mech=[("Ciphertext.CopyNew, NewCiphertext", "mkrlwe/elements.go"), ("Evaluator *New methods", "mkckks/evaluator.go"), ("KeyGenerator.Gen*", "mkrlwe/keygen.go")],
    obs=["memory reachable from each result"]),
  note=NOTE + "Three consecutive runs of each operation are analysed."),
 dict(id="C24", title="Separately created objects do not interfere",
  st="Evaluators, encryptors, decryptors, key switchers and key generators created from the same parameters share no mutable memory: an operation on one writes nothing that another can see, nothing in the parameters, no package variable and no key. So goroutines that each use their own objects, with keys and parameters shared, compute what they would compute alone. Creating objects, keys or further parameter sets changes nothing that exists already, and objects of several parameter sets live in one process without affecting each other.",
  q=(["schedules", "inputs", "configurations"], "every operation, interleaved in any way with operations on objects of other goroutines"),
  why="The tests are sequential and use one object of each kind.",
  a=dict(files=["mkrlwe/keyswitch.go", "mkrlwe/keygen.go", "mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkrlwe/params.go", "mkckks/evaluator.go", "mkbfv/evaluator.go", "mkbfv/keyswitch.go"],
    state=[("pools in Parameters, KeySwitcher, Evaluator, Encryptor, Decryptor", "working memory", "mkrlwe/keyswitch.go")],
    mech=[("NewEvaluator, NewKeySwitcher, NewEncryptor, NewDecryptor, NewKeyGenerator", "mkrlwe/keyswitch.go")],
    obs=["memory written by each call"]),
  note=NOTE + "Relinearization key sets own scratch memory that products write, so one such set must not be used by two goroutines at once; that memory is excepted here. AddCRS changes the parameters and is excepted too."),
 dict(id="C25", title="Generated keys satisfy their defining equations",
  st="Every generated key is what the scheme prescribes: a secret key is a sample of the requested distribution in NTT and Montgomery form over Q and P; a public key is an encryption of zero under the common reference string; relinearization, rotation, conjugation and switching keys encrypt the gadget multiples of exactly the intended value under the intended reference string, modulo every prime of Q and P and in every digit, each with its own small error. Keys carry the id (and rotation index) they were asked for, for every rotation index, every digit grouping and both schemes.",
  q=(["inputs", "configurations", "histories"], "every party, rotation index, number of primes and digits, reference string, on fresh and used generators"),
  why="The tests check public, switching and relinearization keys for sampled secrets with one prime per digit; rotation and conjugation keys are not checked, nor keys of BFV.",
  a=dict(files=["mkrlwe/keygen.go", "mkbfv/keygen.go", "mkrlwe/keys.go", "mkrlwe/params.go"],
    state=[("SecretKey, PublicKey, RelinearizationKey, RotationKey, ConjugationKey, SwitchingKey", "key polynomials modulo Q and P", "mkrlwe/keys.go")],
    mech=[("mkrlwe.KeyGenerator", "mkrlwe/keygen.go"), ("mkbfv.KeyGenerator", "mkbfv/keygen.go")],
    obs=["every polynomial and label of a generated key"]),
  note=NOTE),
 dict(id="C14", title="Published key material never reuses an error or leaks a secret by a mask",
  st="What parties publish does not cancel out. Every published polynomial of every public, relinearization, rotation and conjugation key is one common reference polynomial times one secret plus a message plus one fresh error; no error sample is used in two published polynomials; and two polynomials of one party under the same reference polynomial and secret carry the same message, so no sum, difference or rescaling of published values removes the mask and exposes a key. Each ciphertext uses its own randomness and two errors of its own, also when an encryptor is reused.",
  q=(["inputs", "configurations", "histories"], "every set of keys and ciphertexts published by parties in any order, with any number of generators and encryptors"),
  why="Reused randomness or a reused mask gives keys and ciphertexts that work; functional tests cannot see it.",
  a=dict(files=["mkrlwe/keygen.go", "mkbfv/keygen.go", "mkrlwe/encryptor.go", "mkrlwe/params.go"],
    state=[("Parameters.CRS", "common reference strings by index", "mkrlwe/params.go"), ("KeyGenerator and Encryptor pools", "temporary polynomials that hold errors and randomness", "mkrlwe/keygen.go")],
    mech=[("mkrlwe.KeyGenerator.GenPublicKey/GenSwitchingKey/GenRelinearizationKey/GenRotationKey/GenConjugationKey", "mkrlwe/keygen.go"), ("mkbfv.KeyGenerator.GenRelinearizationKey", "mkbfv/keygen.go"), ("mkrlwe.Encryptor", "mkrlwe/encryptor.go")],
    obs=["published polynomials as expressions in samples and reference strings"]),
  note=NOTE + "This excludes these structural leaks only; hardness assumptions and parameter sizes are not examined. The public key and the relinearization key share one reference polynomial with independent errors."),
 dict(id="C15", title="All secret randomness is fresh, secure and of the right distribution",
  st="Every secret, error and encryption randomness is drawn from the operating system's cryptographic generator, never from a fixed or shared seed; errors are drawn with the parameters' standard deviation and truncated at six of them, secrets and encryption randomness are ternary of density 1/2 or of exactly the requested weight, and two generators, encryptors or parameter sets never replay each other's values.",
  q=(["inputs", "configurations", "histories"], "every draw made by parameter generation, key generation and encryption, on every path"),
  why="Predictable, repeated or too narrow randomness makes every functional test pass.",
  a=dict(files=["mkrlwe/keygen.go", "mkrlwe/encryptor.go", "mkrlwe/params.go", "mkbfv/params.go", "mkckks/params.go"],
    state=[("samplers of KeyGenerator and Encryptor", "Gaussian, ternary and uniform samplers", "mkrlwe/keygen.go")],
    mech=[("NewKeyGenerator", "mkrlwe/keygen.go"), ("NewEncryptor", "mkrlwe/encryptor.go"), ("NewParameters", "mkrlwe/params.go")],
    obs=["source and parameters of every draw"]),
  note=NOTE + "The samplers of lattigo are trusted to implement the distribution they are created with."),
 dict(id="C16", title="Common reference strings are uniform, shared and never replaced",
  st="Parameters provide a common reference string for every announced index and for every index added later; each has one polynomial per digit, independent and uniform modulo every prime of Q and P. Adding an index never changes an existing string, is visible through every copy of the parameters, and every key of every party uses the string of the parameters. Separately generated parameters have unrelated strings.",
  q=(["configurations", "histories"], "every index, digit grouping, order of additions and number of copies of the parameters"),
  why="The tests use each parameter set with its own strings and cannot see repeated digits or non-uniform polynomials.",
  a=dict(files=["mkrlwe/params.go", "mkckks/params.go", "mkbfv/params.go"],
    state=[("Parameters.CRS", "common reference strings by index", "mkrlwe/params.go")],
    mech=[("mkrlwe.NewParameters", "mkrlwe/params.go"), ("mkrlwe.Parameters.AddCRS", "mkrlwe/params.go")],
    obs=["content of Parameters.CRS after every operation"]),
  note=NOTE),
]
PROPS_C = [
 dict(id="C09", title="Hoisted forms can be reused and agree with the direct operations",
  st="A hoisted form computed once from a ciphertext can be used for any number of rotations and products, in any order, together with hoisted forms of other ciphertexts and at every level: each use gives a result that decrypts like the result of the operation without hoisting, with the same level, scale and parties, and leaves the hoisted forms and the operands unchanged.",
  q=(["inputs", "histories", "configurations"], "every order of rotations and products over coexisting hoisted forms, at every level and digit grouping"),
  why="The tests use each hoisted form once, at the maximum level, immediately after computing it.",
  a=dict(files=["mkckks/evaluator.go", "mkrlwe/keyswitch_hoisted.go", "mkrlwe/elements.go"],
    state=[("HoistedCiphertext.Value", "digits of every component in NTT form modulo Q and P", "mkrlwe/elements.go"), ("RelinearizationKeySet.HoistPool", "scratch memory of hoisted products", "mkrlwe/keys.go")],
    mech=[("mkckks.Evaluator.HoistedForm", "mkckks/evaluator.go"), ("mkckks.Evaluator.MulRelinHoistedNew/RotateHoistedNew", "mkckks/evaluator.go"), ("mkrlwe.KeySwitcher.MulAndRelinHoisted/RotateHoisted", "mkrlwe/keyswitch_hoisted.go")],
    obs=["phase, level, scale and party set of every result", "content of hoisted forms and operands"]),
  note=NOTE + "All orders of two steps are thinned by a fixed rule in the quick tier; one sequence of seven steps runs at every level."),
 dict(id="C18", title="Results do not depend on what an object was used for before",
  st="Evaluators, encryptors, decryptors, key switchers, key generators and relinearization key sets may be used for any sequence of operations, also after calls that failed: what an earlier call left in working memory never shows in a later result. Every operation gives on a used object the result it gives on a fresh one, also when the caller reuses operands with other contents.",
  q=(["histories", "inputs"], "every operation after every history of operations on the same objects"),
  why="The tests run a handful of operations in one order on fresh objects of one level; stale rows of a pool show only after an operation at another level or with other parties.",
  a=dict(files=["mkrlwe/keyswitch.go", "mkrlwe/keyswitch_hoisted.go", "mkrlwe/keygen.go", "mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkrlwe/keys.go", "mkckks/evaluator.go", "mkbfv/evaluator.go", "mkbfv/keyswitch.go"],
    state=[("pools of KeySwitcher, Evaluator, KeyGenerator, Encryptor, Decryptor", "temporary polynomials reused between calls", "mkrlwe/keyswitch.go"), ("RelinearizationKeySet.HoistPool", "scratch memory of hoisted products", "mkrlwe/keys.go")],
    mech=[("mkrlwe.KeySwitcher", "mkrlwe/keyswitch.go"), ("mkckks.Evaluator", "mkckks/evaluator.go"), ("mkbfv.Evaluator", "mkbfv/evaluator.go"), ("mkrlwe.KeyGenerator", "mkrlwe/keygen.go")],
    obs=["result of every operation when working memory holds arbitrary values"]),
  note=NOTE + "Every coefficient row of working memory that any operation writes is replaced by an unrelated symbol before the operation; operations that change anything else than rows also run before it."),
]
PROPS_D = [
 dict(id="C17", title="Party sets, key sets and ciphertext containers are faithful",
  st="Party sets form exactly the set the calls describe (union, intersection, membership, size, adding and removing), leave their operands alone and refuse the reserved id. A new ciphertext holds one zero component per party plus the constant one, at the asked level and in the asked domain; a copy equals its source and shares no memory with it; no two components share memory; padding adds zero components for exactly the missing parties. A key stored in a key set is the one returned for its id (and rotation index), a deleted or never stored key is refused, and no operation on one entry changes another.",
  q=(["inputs", "histories", "configurations"], "every set of parties, level, domain and order of insertions and deletions"),
  why="The tests only build the sets they need for one happy path and never delete, copy or pad anything.",
  a=dict(files=["mkrlwe/elements.go", "mkrlwe/keys.go", "mkrlwe/idset.go", "mkckks/elements.go", "mkbfv/elements.go", "mkbfv/keys.go"],
    state=[("IDSet.Value", "the member ids", "mkrlwe/idset.go"), ("Ciphertext.Value", "one ring element per involved party plus the constant component", "mkrlwe/elements.go"), ("key sets' Value", "keys by party and index", "mkrlwe/keys.go")],
    mech=[("mkrlwe.IDSet", "mkrlwe/idset.go"), ("NewCiphertext, CopyNew, Copy, PadCiphertext", "mkrlwe/elements.go"), ("Add/Get/Del of the key sets", "mkrlwe/keys.go")],
    obs=["members of sets", "components, level and domain of ciphertexts", "object returned for a key"]),
  note=NOTE + "All pairs of subsets of a pool of four ids that a careless comparison could confuse; other id values are covered only as far as the code does not look into them."),
 dict(id="C19", title="Gadget decomposition splits every element into the digits of its level",
  st="Decomposing a ring element at any level yields, for every group of primes that is present at that level, the transform of the unique representative of the element modulo that group, extended to all primes of the level and all special primes. It does not depend on the domain or the height of the operand, on what the receiver held before, or on other levels decomposed earlier, and it leaves the operand unchanged. The BFV decomposition does this for the ciphertext primes and the auxiliary primes.",
  q=(["inputs", "configurations"], "every ring element, level, digit and digit grouping, including an incomplete last group"),
  why="The Decompose test recomposes sampled elements with one prime per digit, where the extension inside a group is never exercised.",
  a=dict(files=["mkrlwe/keyswitch.go", "mkrlwe/basis_extension.go", "mkbfv/keyswitch.go"],
    mech=[("mkrlwe.KeySwitcher.Decompose/DecomposeSingleNTT", "mkrlwe/keyswitch.go"), ("mkrlwe.Decomposer.DecomposeAndSplit", "mkrlwe/basis_extension.go"), ("mkbfv.KeySwitcher.DecomposeBFV", "mkbfv/keyswitch.go")],
    obs=["rows of every digit modulo Q and P"]),
  note=NOTE + "The base extension is decided in exact arithmetic; that the floating-point quotient of reconstructRNS is right near a multiple of the modulus is the usual assumption of that algorithm and is not shown."),
 dict(id="C20", title="External products multiply by what the gadget vector encrypts",
  st="The external product of any ring element with any gadget vector, at any level, is the sum of digit times entry over the digits of that level, divided by the special modulus and rounded. With a gadget encryption of a value it is therefore the product with that value plus a small error. The forms with precomputed digits, and the BFV forms over the extended modulus, give the same result, and operands, digits and gadget vectors are left unchanged.",
  q=(["inputs", "configurations"], "every ring element, gadget vector, level and digit grouping; plain and hoisted forms"),
  why="The ExternalProduct test uses one parameter set at the maximum level with one prime per digit and compares sampled values with a tolerance.",
  a=dict(files=["mkrlwe/keyswitch.go", "mkrlwe/keyswitch_hoisted.go", "mkbfv/keyswitch.go", "mkbfv/keyswitch_hoisted.go"],
    mech=[("mkrlwe.KeySwitcher.ExternalProduct", "mkrlwe/keyswitch.go"), ("mkrlwe.KeySwitcher.ExternalProductHoisted", "mkrlwe/keyswitch_hoisted.go"), ("mkbfv.KeySwitcher.ExternalProductBFV", "mkbfv/keyswitch.go"), ("mkbfv.KeySwitcher.ExternalProductBFVHoisted", "mkbfv/keyswitch_hoisted.go")],
    obs=["rows of the result", "content of operand, digits and vector"]),
  note=NOTE + "The error with a gadget encryption is shown to consist of terms that are each small against the special modulus."),
 dict(id="C21", title="Basis extension and modulus reduction are exact at every pair of levels",
  st="Extending an element from the primes of one level to other primes yields its unique representative modulo the source primes. Dividing an element modulo QP by P (or by Q) yields the element minus its representative modulo the removed primes, divided by their product, modulo every remaining prime, and the BFV extender lifts operands to the auxiliary modulus and scales products back by T over the auxiliary modulus in the same exact way. This holds for every pair of levels, in both domains, with the receiver being an operand or not; copied extenders share no working memory.",
  q=(["inputs", "configurations"], "every element, every pair of levels in Q and P, and both schemes' extenders"),
  why="No test calls the extenders directly; operations use them at a single pair of levels, so precomputed constants of other levels are never read.",
  a=dict(files=["mkrlwe/basis_extension.go", "mkbfv/basis_extension.go"],
    state=[("FastBasisExtender.paramsQtoP/paramsPtoQ/modDownparamsPtoQ/modDownparamsQtoP", "constants by level", "mkrlwe/basis_extension.go")],
    mech=[("mkrlwe.FastBasisExtender.ModUpQtoP/ModUpPtoQ/ModDownQPtoQ/ModDownQPtoQNTT/ModDownQPtoP/ShallowCopy", "mkrlwe/basis_extension.go"), ("mkbfv.FastBasisExtender.ModUpQtoR/Quantize/Rescale", "mkbfv/basis_extension.go")],
    obs=["rows of the result", "content of the operands"]),
  note=NOTE + "The base extension is decided in exact arithmetic; that the floating-point quotient of reconstructRNS is right near a multiple of the modulus is the usual assumption of that algorithm and is not shown."),
 dict(id="C23", title="Arithmetic stays inside machine words and kernels get what they require",
  st="With ciphertext primes of up to 60 bits and special primes of up to 61 bits, no operation ever lets an intermediate value exceed 64 bits, however many digits, parties or additions it accumulates. Every transform, Montgomery product and subtraction gets operands in the domain, modulus and range it requires, and every key, ciphertext and plaintext the library hands out holds values that do not exceed their modulus (a negation may leave the modulus itself in place of zero).",
  q=(["inputs", "configurations"], "every operation, coefficient value, number of digits, number of parties and level"),
  why="An overflow shows only for coefficient values near the top of the range in combination with many digits or parties; tests draw few values at one configuration and compare within a tolerance.",
  a=dict(files=["mkrlwe/keyswitch.go", "mkrlwe/keyswitch_hoisted.go", "mkrlwe/basis_extension.go", "mkbfv/keyswitch.go", "mkbfv/basis_extension.go", "mkckks/evaluator.go"],
    mech=[("multSum, reconstructRNS, modUpExact", "mkrlwe/basis_extension.go"), ("mkrlwe.KeySwitcher.ExternalProduct", "mkrlwe/keyswitch.go"), ("mkrlwe.KeySwitcher.MulAndRelin", "mkrlwe/keyswitch.go")],
    obs=["bounds of every coefficient row as a multiple of its modulus", "words of the base extension kernels"]),
  note=NOTE + "Bounds are intervals per coefficient row; the requirements of the library's transforms are those of its source (butterflies add up to four times the modulus before reducing)."),
 dict(id="C22", title="The network layers compute the layer functions on encrypted slots",
  st="The convolution layer returns an encryption of the sum over the four kernels of the image rotated by 0, 1, 14 and 15 times the kernel, accumulated over rotations by 2048 and 1024. The first fully connected layer returns, for any number of matrix parts, the sum of the vector rotated by multiples of 128 times the part, accumulated over 128 neighbouring slots, plus the bias; the second one masks the vector, spreads it over 16 slots to the right, multiplies by the matrix, accumulates over the 64 blocks of 128 slots and adds the bias. This holds for every content of the inputs and every set of owners, and no input is changed.",
  q=(["inputs", "configurations"], "every slot content of images, kernels, matrices, masks and biases, every number of matrix parts and set of parties"),
  why="The layer tests classify one stored image and compare a label; they need data and keys that take minutes and are not among the tests that run reliably.",
  a=dict(files=["cnn/cnn.go"],
    mech=[("cnn.Convolution", "cnn/cnn.go"), ("cnn.FC1Layer", "cnn/cnn.go"), ("cnn.FC2Layer", "cnn/cnn.go")],
    obs=["slot vector and party set of the result", "content of the inputs"]),
  note=NOTE + "Evaluator methods are replaced by their contracts, which C04, C05, C07, C09 and C10 decide; scales and levels inside the layers are not tracked. Ring degree 2^14, one to nine matrix parts."),
 dict(id="C26", title="Parameters derive their rings, digits and sizes from their arguments",
  st="For every number of ciphertext and special primes and every digit grouping, parameters report the digit size, the number of digits at each level, the level count, rings, degree, error width, scale, slot count and plaintext modulus their arguments determine. The digits of the maximum level cover every ciphertext prime, every default reference string and every new switching key has one full entry per digit, and the extended BFV rings consist of the ciphertext primes followed by the auxiliary ones. BFV literals whose two prime lists differ in length are refused, and changing a literal afterwards does not change the parameters.",
  q=(["configurations"], "every number of primes of each kind, digit grouping, slot count and level"),
  why="The tests use one parameter set per scheme, with digit size one, where rounding the digit count up or down and every digit layout agree.",
  a=dict(files=["mkrlwe/params.go", "mkckks/params.go", "mkbfv/params.go", "mkrlwe/keys.go"],
    state=[("Parameters.gamma", "number of groups the special primes stand for", "mkrlwe/params.go"), ("Parameters.CRS", "common reference strings by index", "mkrlwe/params.go")],
    mech=[("mkrlwe.NewParameters", "mkrlwe/params.go"), ("mkrlwe.Parameters.Alpha/Beta/Gamma", "mkrlwe/params.go"), ("mkckks.NewParameters", "mkckks/params.go"), ("mkbfv.NewParametersFromLiteral", "mkbfv/params.go")],
    obs=["values of the accessors", "moduli of the rings", "digits of reference strings and keys"]),
  note=NOTE + "One to seven ciphertext primes (twelve in the thorough tier) with twelve combinations of special primes and grouping."),
]
PROPS_E = [
 dict(id="C29", title="Secrets steer no control flow and leave through no message or output",
  st="While keys are generated and messages are encoded, encrypted, partially decrypted or decrypted, the library's own code takes no branch and computes no memory index from coefficients of secret keys, of encryption randomness, of errors, of messages or of plaintexts; comparing a value with a modulus to bring it into range is the only exception. No such value becomes part of an error or panic text, and the library writes nothing to standard streams, logs, files or the network.",
  q=(["inputs", "configurations"], "every secret, random draw, message and plaintext; every public operation that handles them; every function of the library"),
  why="The result of a branch on a secret is the same as without it, so tests of results cannot see it, and error texts are not looked at.",
  a=dict(files=["mkrlwe/keygen.go", "mkrlwe/encryptor.go", "mkrlwe/decryptor.go", "mkckks/encryptor.go", "mkckks/decryptor.go", "mkbfv/encryptor.go", "mkbfv/decryptor.go"],
    mech=[("mkrlwe.KeyGenerator.GenSecretKey/GenPublicKey/GenSwitchingKey", "mkrlwe/keygen.go"), ("mkrlwe.Encryptor.Encrypt", "mkrlwe/encryptor.go"), ("mkrlwe.Decryptor.PartialDecrypt/Decrypt", "mkrlwe/decryptor.go")],
    obs=["conditions of branches and index expressions", "arguments of panics and formatting functions", "functions and variables the library refers to"]),
  tech="abstract interpretation of go/ssa with provenance of every branch condition and index, and a scan of all functions' SSA for outputs and texts",
  note=NOTE + "Code of lattigo and of the standard library (samplers, encoders, big integers) is outside: lattigo's samplers and encoders do branch on their data. Evaluation is not included; it handles no secret."),
]
PROPS = PROPS_A[:3] + PROPS + PROPS_A[3:] + PROPS_B + PROPS_C + PROPS_D + PROPS_E
PROPS_NA = [
 dict(id="C27", title="Decryption errors stay below the precision the parameters promise",
  st="For parameters with room for the circuit the error of every decrypted value stays below the precision the scale leaves (CKKS) or the decryption threshold (BFV), for every circuit within the supported depth.",
  q=(["inputs", "configurations", "histories"], "every message, draw of randomness and circuit within the depth of the parameters"),
  why="The tests compare a few random products with a tolerance; the tail of the error distribution and deep circuits are never reached.",
  a=dict(files=["mkckks/evaluator.go", "mkbfv/evaluator.go", "mkrlwe/keyswitch.go"],
    mech=[("mkrlwe.KeySwitcher.ExternalProduct", "mkrlwe/keyswitch.go"), ("mkckks.Evaluator.Rescale", "mkckks/evaluator.go")]), note=""),
 dict(id="C28", title="The floating-point quotient of base extensions is exact",
  st="Every base extension subtracts the right multiple of the source modulus although it computes the multiple from floating-point quotients, for every element including those next to a multiple of the modulus.",
  q=(["inputs", "configurations"], "every coefficient value and every set of primes"),
  why="Random elements come within rounding distance of a multiple of the modulus with negligible probability.",
  a=dict(files=["mkrlwe/basis_extension.go"], mech=[("reconstructRNS", "mkrlwe/basis_extension.go")]), note=""),
]
PROPS = PROPS + PROPS_NA
NA = [
 dict(property="C27", reason="A bound on the error quantifies over runtime draws from an unbounded-in-effect distribution and over circuits; a sound worst-case static bound is larger than the scale, and a useful one is probabilistic. The structure of the error (which small terms, each fresh, consistent modulo every prime) is decided by C01, C05-C08 and C20; its size is not."),
 dict(property="C28", reason="It depends on IEEE rounding of sums of quotients for concrete 60-bit primes and every coefficient: no static argument in reach bounds the distance of an element from a multiple of the modulus, and for elements within rounding distance the statement is false (the algorithm accepts an off-by-one there). C19 and C21 decide the exact arithmetic around it."),
]
