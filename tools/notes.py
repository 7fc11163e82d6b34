"""Technique and assurance notes per property, for MANIFEST.json."""
HOOKS = None
SIM = ('Quint specification over unbounded integers, simulated with directed structured generators; every state '
       'is replayed into the real code and compared in every operator form. ')
def sim(*mods):
    return 'Quint specification %s: simulated behaviours replayed into the code (model-based testing)' % ', '.join(mods)


TRUST = ' Sampled, not exhaustive; trusts the Quint interpreter and the driver.'
TECH = {
 'C17': sim('U256Ring'), 'C18': sim('U256Div'), 'C19': sim('U256Gcd'), 'C20': sim('U256Text', 'Decode'),
 'C21': sim('Fields', 'FieldOps', 'Decode'), 'C22': sim('FieldFun', 'Series'), 'C23': sim('Fft', 'Perm'),
 'C14': sim('Merkle') + '; small trees enumerated exhaustively', 'C15': sim('Merkle') + '; small trees enumerated exhaustively', 'C16': sim('Keccak', 'Hashing'),
 'C26': sim('BoundedVec') + '; short operation sequences enumerated exhaustively', 'C27': 'TLC on TLA+ AllocRace (all interleavings), and ' + sim('Alloc') + ', sequentially and on racing threads',
 'C24': sim('CurveLaw', 'Curve'), 'C25': sim('Ecdsa'),
}
NOTE = {
 'C17': SIM + TRUST,
 'C18': SIM + 'Generators steer Knuth division into each branch (estimate too large by one or two, leading words equal).' + TRUST,
 'C19': SIM + 'Operands are built from continued fraction quotients of chosen sizes.' + TRUST,
 'C20': SIM + 'Strings are built by grammar class, valid and malformed, around 2^256; JSON, bincode and SCALE documents, intact and damaged.' + TRUST,
 'C21': SIM + 'Five fields, operands and results chosen by stored representation so that carries and final subtractions are hit; serialised elements in and out of range.' + TRUST,
 'C22': SIM + 'Series are replayed as a state machine of iterator adaptors.' + TRUST,
 'C23': SIM + 'Short transforms by definition; long ones (to 2^14) from closed forms, with an independent reference for every position, on pools of 1 to 8 threads.' + TRUST,
 'C24': SIM + 'Points are multiples of the generator with the scalar as abstraction, so exceptional cases are chosen, not hit by luck.' + TRUST,
 'C25': SIM + 'Signatures are computed from the scheme; alterations of every component are judged by the curve equation in scalars.' + TRUST,
 'C14': 'Symbolic Merkle specification: every tree of up to 8 leaves with every set of positions and cache depth, sampled trees to 2^11 leaves and openings in trees to 2^62.' + TRUST,
 'C15': 'Symbolic verifier (injective hash terms): every set of positions of trees up to 8 leaves with every deviation, plus sampled larger trees; the verdict of the code must equal the verdict of the specification.' + TRUST,
 'C16': 'Keccak-256 is specified from its definition in Quint; digests of the simulated absorb sequences and values are compared.' + TRUST,
 'C26': 'Vector specification with two vectors; every sequence of 3 (thorough: 4) operations of a 14 operation alphabet plus long sampled histories, on six element types, one of which tracks every instance (double, missing and unfounded drops).' + TRUST,
 'C27': 'Interleavings of the atomic steps are explored exhaustively by TLC for two threads with two calls each; the code itself is bound by replaying sequential histories exactly and by racing threads checked at rest, so a race is detected statistically; the search alone is repeated some hundred thousand times on pools of 1 to 12 threads through a guarded entry point, against the smallest nonce that the specification finds by hashing itself.' + TRUST,
}

REF = ('The constraint systems, traces, degrees, satisfaction and attacks are stated in Quint; an independent reference prover and '
       'verifier, checked against the specification state by state, gives the prescribed bytes and verdicts. ')
TECH.update({
 'C01': sim('Air', 'AirGen', 'AirDress'), 'C02': sim('Attack', 'AirGen'), 'C03': sim('Stark', 'Tamper'), 'C04': sim('Decode', 'Merkle', 'Tamper'),
 'C05': sim('Attack', 'AirGen') + ', transcripts compared bit by bit',
 'C06': 'TLC on TLA+ PowSearch (all interleavings), and ' + sim('PowGen', 'PowRace', 'Attack'),
 'C07': sim('Stark', 'Air', 'AirGen', 'AirDress') + ', proofs compared byte by byte', 'C08': sim('Expr', 'ExprGen', 'AirDress'),
 'C09': sim('Air', 'AirGen'),
})
NOTE.update({
 'C01': REF + 'Systems of 1 to 6 columns, degrees to 8, 1 to 2^16 rows, all layouts and parameters of the sampled ranges, satisfied by construction: the code must prove and accept.' + TRUST,
 'C02': REF + 'Twenty-two kinds of dishonest step, alone and in pairs, for satisfied and spoiled traces; the verdict of the code must equal that of the reference, which must equal the symbolic verdict of the specification where that is certain. Not a proof of cryptographic soundness.' + TRUST,
 'C03': 'The protocol is also specified bit by bit (Stark.qnt), with the verdict on a proof changed in one word computed by the specification itself. ' + REF + 'Thirty kinds of change to proof bytes and claims.' + TRUST,
 'C04': REF + 'The same changes, plus garbage of every length, as well as damaged documents of every serialisable type and damaged Merkle openings, run in a monitored process built with overflow checks and assertions: a panic or a hang is a violation.' + TRUST,
 'C05': REF + 'Every message is left out of the transcript in turn; every value drawn is compared through the proof.' + TRUST,
 'C06': 'The search is model checked for up to four threads; the code is run on pools of 1 to 9 threads, repeatedly, against the smallest nonce found by definition, so a race is detected statistically; the search alone is repeated some hundred thousand times on pools of 1 to 12 threads through a guarded entry point, against the smallest nonce that the specification finds by hashing itself.' + TRUST,
 'C07': 'The proof of a small system is computed bit by bit by the specification itself (Stark.qnt) and compared byte by byte. ' + REF + 'Each part of the proof is compared with the reference, on pools of 1 to 9 threads.' + TRUST,
 'C08': REF + 'Expressions of every shape as built by operators and as trees; every evaluation path and the prover against the definition.' + TRUST,
 'C09': REF + 'Every row and constraint of sampled systems, with the given trace and one spoiled cell.' + TRUST,
})
TECH.update({
 'C10': sim('Component', 'Air'), 'C11': sim('Poly'),
 'C12': sim('Export', 'AirGen') + '; generated contracts run in a Yul interpreter', 'C13': sim('Limits', 'Air'),
})
NOTE.update({
 'C10': 'A composition is specified as the place of every cell of every part and satisfaction of all parts; nested compositions of up to 4 parts (thorough: 8), given and spoiled in one cell, are built in the code, checked, proved and verified.' + TRUST,
 'C11': 'Polynomial and table histories replayed as a state machine; interpolation and extension by definition.' + TRUST,
 'C12': REF + 'The export of a proof is parsed and compared part by part with the reference; the generated contracts are interpreted and must return the combination the specification computes.' + TRUST,
 'C13': 'Longest possible proof and security computed from the structure of a proof; parameters to 2^26 rows, 300 queries and 40 columns; actual proofs with given and default parameters.' + TRUST,
})
