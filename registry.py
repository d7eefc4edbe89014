"""Which harness runs decide which property, with their bounds and assumptions."""


class Job:
    def __init__(self, src, entry, args=(), fp="exact", threads=1, omp=False, defs=(), tier="quick", time=300,
                 qtime=20000, maxinstr=30000000, bound="", reach=(), weight=1, pre="", hist=True):
        self.src, self.entry, self.args, self.fp = src, entry, tuple(args), fp
        self.threads, self.omp, self.defs, self.tier = threads, omp, tuple(defs), tier
        self.time, self.qtime, self.maxinstr, self.bound, self.reach = time, qtime, maxinstr, bound, tuple(reach)
        self.weight, self.pre, self.hist = weight, pre, hist

    def ident(self):
        return {"src": self.src, "entry": self.entry, "args": list(self.args), "fp": self.fp, "threads": self.threads,
                "omp": self.omp, "defs": list(self.defs), "pre": self.pre}

    def label(self):
        return self.entry + ("(%s)" % ",".join(map(str, self.args)) if self.args else "") + \
            ("[%d threads]" % self.threads if self.omp else "") + (" after %s" % self.pre if self.pre else "")


class Prop:
    def __init__(self, bounds, assumptions, jobs):
        self.bounds, self.assumptions, self.jobs = bounds, assumptions, jobs


PROPS = {}
TOOLS = ["clang 18 -O1 front end and the IR semantics of engine/vpsym", "Z3 5.3"]
EXACT = "doubles are treated as real numbers (claims hold up to rounding)"

R = ("end",)


def J(src, entry, *args, **kw):
    kw.setdefault("reach", R)
    return Job(src, entry, args, **kw)


# ---------------------------------------------------------------------------------------------------------- C01
PROPS["C01"] = Prop(
    "operators with 1, 2, 3 and 4 indices; three independent operators; all 64-bit index values and flags (complete)",
    TOOLS,
    [J("c01_operator.cpp", e) for e in ("one_index", "two_indices", "three_indices", "four_indices")])

# ---------------------------------------------------------------------------------------------------------- C02
PROPS["C02"] = Prop(
    "triples of operators with 1..4 indices (complete over all 64-bit values); triples of terms with strings of length 0..2 "
    "(quick) / 0..3 (thorough) over operators with arbitrary 64-bit index, spin and flag",
    TOOLS,
    [J("c02_order.cpp", e) for e in ("order1", "order1_signed", "order2", "order2_wide", "order3", "order4")] +
    [J("c02_order.cpp", "term_order", a, b, c, tier="quick" if max(a, b, c) < 3 else "thorough")
     for a in range(4) for b in range(4) for c in range(4)])

# ---------------------------------------------------------------------------------------------------------- C03
PROPS["C03"] = Prop(
    "monomials of length 0..3 (thorough 0..4; products and conjugates: also 9..12) over operators with arbitrary flag, 64-bit index and spin",
    TOOLS,
    [J("c03_monomial.cpp", e, a, b, tier="quick" if max(a, b) < 4 else "thorough")
     for e in ("product", "compare") for a in range(5) for b in range(5)] +
    [J("c03_monomial.cpp", "associative", a, b, c, tier="quick" if max(a, b, c) < 2 else "thorough")
     for a in range(3) for b in range(3) for c in range(3)] +
    [J("c03_monomial.cpp", e, a) for e in ("self_product", "conjugate") for a in (0, 1, 2, 3, 4, 12)] +
    [J("c03_monomial.cpp", "product", 12, 9), J("c03_monomial.cpp", "product", 1, 10), J("c03_monomial.cpp", "compare", 7, 7, tier="thorough")])

# ---------------------------------------------------------------------------------------------------------- C04
PROPS["C04"] = Prop(
    "products and conjugates: strings of length 0..3, 8, 9 and 12, arbitrary flag, 64-bit index, spin and real or complex prefactor; "
    "collection: up to 3 terms with strings of length 0..2 and 4 terms of length 1 (thorough: 4 terms up to length 2), up to 40 terms with fixed strings but for one",
    TOOLS + [EXACT],
    [J("c04_term.cpp", e, a, b) for e in ("real_product", "complex_product") for a in range(4) for b in range(4)
     if max(a, b) < 3 or a != b] +
    [J("c04_term.cpp", e, a) for e in ("real_conjugate", "complex_conjugate") for a in (0, 1, 2, 3, 4, 12)] +
    [J("c04_term.cpp", e, 9, 8) for e in ("real_product", "complex_product")] +
    [J("c04_term.cpp", "collect", *l, weight=sum(l)) for l in
     ([0], [1, 0], [1, 2], [2, 1, 1], [2, 2, 2], [2, 0, 1], [2, 0, 0], [3, 1, 1, 1], [3, 2, 1, 2], [3, 0, 1, 0], [3, 2, 2, 2], [4, 1, 1, 1, 1])] +
    [J("c04_term.cpp", "large_collect", n, k, p, l) for n, k, p, l in ((24, 10, 5, 2), (24, 24, 23, 1), (40, 30, 39, 2), (17, 3, 0, 3))] +
    [J("c04_term.cpp", "collect", *l, weight=sum(l), tier="thorough", time=1500) for l in
     ([3, 3, 3, 3], [4, 2, 1, 2, 1], [4, 2, 2, 2, 2], [5, 1, 1, 1, 1, 1])])

# ---------------------------------------------------------------------------------------------------------- C30
PROPS["C30"] = Prop(
    "strings of length 0..4 and 9 with arbitrary flags, indices and spins",
    TOOLS,
    [J("c04_term.cpp", "charges", a, b) for a in range(5) for b in range(3)] + [J("c04_term.cpp", "charges", 9, 9)])

# ---------------------------------------------------------------------------------------------------------- C05
PROPS["C05"] = Prop(
    "pairs of operators with 1, 2, 3 indices: all 64-bit values and flags (complete); symbols as indices: strings of 1 or 2 "
    "arbitrary characters (two of them in longer ones of 20) mixed with concrete indices",
    TOOLS,
    [J("c05_anticommutator.cpp", e) for e in ("concrete1", "concrete2", "concrete3", "symbolic_three")] +
    [J("c05_anticommutator.cpp", "symbolic_concrete", a, b, reach=("end", "different") + (("same",) if a == b else ()))
     for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (20, 20), (20, 19))] +
    [J("c05_anticommutator.cpp", "symbolic_all", a, b) for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (20, 20))])

# ---------------------------------------------------------------------------------------------------------- C06
PROPS["C06"] = Prop(
    "A and B with lengths (n,m), n*m even, n+m <= 5, and (2,4), (4,2) over two modes (thorough: up to (4,4)), arbitrary flags, "
    "arbitrary mode of each operator among n+m modes (site and spin, site offset by an arbitrary 64-bit value), every Fock state of these modes; up to 21 operators "
    "in all with one arbitrary; symbols as "
    "indices: lengths up to (2,2), 3 symbols with every assignment of sites",
    TOOLS + ["relabelling modes does not change operator identities, so n+m modes are as good as any number"],
    [J("c06_commutator.cpp", "commutator", n, m, max(2, n + m), time=300 if n + m <= 5 else 2500, tier="quick" if n + m <= 5 else "thorough",
       weight=5 ** (n + m))
     for n in range(5) for m in range(5) if n * m % 2 == 0] +
    [J("c06_commutator.cpp", "commutator", n, m, 2, time=300, weight=10 ** 5) for n, m in ((2, 4), (4, 2))] +
    [J("c06_commutator.cpp", "large_commutator", *a) for a in ((4, 6, 6, 3), (8, 6, 6, 9), (6, 8, 6, 1), (12, 9, 8, 2), (1, 10, 5, 0), (10, 1, 5, 10))] +
    [J("c06_commutator.cpp", "prefactors", n, m) for n, m in ((1, 2), (2, 1), (2, 2), (3, 2))] +
    [J("c06_commutator.cpp", "symbolic_commutator", n, m, s, 2, weight=100) for n, m, s in ((1, 2, 3), (2, 1, 3), (2, 2, 2))] +
    [J("c06_commutator.cpp", "symbolic_commutator", n, m, s, 3, tier="thorough", time=2500) for n, m, s in ((2, 2, 3), (1, 4, 2), (3, 2, 2))])

# ---------------------------------------------------------------------------------------------------------- C07
PROPS["C07"] = Prop(
    "deltas over symbols of 0..2 arbitrary characters; products of prefactors with up to 2+2 deltas; canonical order of up to 3 "
    "deltas, all rotations, reversals and flips; symbols of 20 characters, two of them arbitrary; products of up to 17 deltas, "
    "order of 8 and 17 deltas, one of them arbitrary",
    TOOLS + [EXACT],
    [J("c07_prefactor.cpp", "kronecker_equality", *l) for l in ((1, 1, 1, 1), (1, 2, 1, 2), (2, 1, 1, 2), (0, 1, 1, 0), (2, 2, 2, 2), (1, 2, 2, 1), (20, 20, 20, 20), (20, 1, 1, 20))] +
    [J("c07_prefactor.cpp", "product", a, b) for a in range(3) for b in range(3)] + [J("c07_prefactor.cpp", "product", 9, 8)] +
    [J("c07_prefactor.cpp", "large_order", *a) for a in ((8, 3), (17, 0), (17, 16))] + [J("c07_prefactor.cpp", "canonical_unique", 2, 17, 17, 17, 17)] +
    [J("c07_prefactor.cpp", e, *l, weight=10 ** l[0]) for e in ("canonical_order", "canonical_unique")
     for l in ((1, 1, 1), (1, 1, 2), (2, 1, 1, 1, 1), (2, 1, 2, 1, 2), (2, 1, 2, 2, 1))] +
    [J("c07_prefactor.cpp", "canonical_order", 3, 1, 1, 1, 1, 1, 1, weight=10000, time=600)] +
    [J("c07_prefactor.cpp", "canonical_unique", 3, 1, 1, 1, 1, 1, 1, tier="thorough", time=2500)])

# ---------------------------------------------------------------------------------------------------------- C08
PROPS["C08"] = Prop(
    "all 64-bit start values, offsets and pairs of positions (modulo 2^64); stepping up to 8 times",
    TOOLS,
    [J("c08_iterator.cpp", e) for e in ("const_iterator", "mutable_iterator")] +
    [J("c08_iterator.cpp", e, n) for e in ("const_steps", "mutable_steps") for n in (0, 1, 3, 8)])

# ---------------------------------------------------------------------------------------------------------- C09
PROPS["C09"] = Prop(
    "every chain length N <= 2^32 and all sites (symbolic); translation invariance and triangle inequality: N <= 16 (thorough: also 31, 32, 63, 64, 100); iteration for N <= 8 and N = 40",
    TOOLS + ["the floating-point members are not interpreted here"],
    [J("c09_chain.cpp", e, 32, hist=False) for e in ("real_space", "momentum_space")] +
    [J("c09_chain.cpp", "distance_laws", n, tier="quick" if n < 17 else "thorough") for n in list(range(1, 17)) + [31, 32, 63, 64, 100]] +
    [J("c09_chain.cpp", "iteration", n) for n in list(range(1, 9)) + [40]])

# ---------------------------------------------------------------------------------------------------------- C10
PROPS["C10"] = Prop(
    "chains with 1..8 sites (thorough 1..16), positions within 0.499 spacings of any site shifted by -2..2 periods with every "
    "rounding error of the double operations admitted, spacings 1, 0.1, 0.3, 1234.5 and 2pi/N; one site of chains with up to 1024 sites; arbitrary spacings and closest() "
    "in real arithmetic",
    TOOLS + ["err mode: every double operation returns the exact result times (1+e), |e| <= 2^-53, plus a denormal-size error"],
    [J("c09_chain.cpp", "lookup_real", n, s, fp="err", tier="quick" if n < 9 and (s < 2 or n < 5) else "thorough") for n in range(1, 17) for s in range(4)] +
    [J("c09_chain.cpp", "lookup_momentum", n, fp="err", tier="quick" if n < 9 else "thorough") for n in range(1, 17)] +
    [J("c09_chain.cpp", "in_range", n, r, fp="err") for n in range(1, 9) for r in (0, 1)] +
    [J("c09_chain.cpp", "lookup_spacing", n) for n in (1, 2, 3, 5)] +
    [J("c09_chain.cpp", "lookup_long", *a, fp="err") for a in ((10, 7), (12, 0), (16, 15), (50, 49), (100, 63), (1000, 0), (1000, 500), (1024, 1023))] +
    [J("c09_chain.cpp", "momentum_geometry", n, fp="ieee") for n in list(range(1, 17)) + [32, 50, 102]] +
    [J("c09_chain.cpp", "closest", *a) for a in ((9, 0, 9), (16, 1, 1), (33, 0, 20))] +
    [J("c09_chain.cpp", "closest", n, r) for n in (1, 2, 3, 4, 6) for r in (0, 1)])

# ---------------------------------------------------------------------------------------------------------- C12
PROPS["C12"] = Prop(
    "chains and abstract lattices with 1..5 (thorough 1..8; one-operator basis also 40; three-operator basis up to 17 with one site arbitrary) sites, all sites; position formula for N = 10, 1000, 2^20",
    TOOLS,
    [J("c12_bases.cpp", e, n, tier="quick" if n < 7 else "thorough") for e in ("real1_chain", "real1_sites") for n in range(1, 9)] +
    [J("c12_bases.cpp", e, 40) for e in ("real1_chain", "real1_sites")] +
    [J("c12_bases.cpp", e, n, tier="quick" if n < 6 else "thorough", weight=n ** 3) for e in ("real3_chain", "real3_sites") for n in range(1, 9)] +
    [J("c12_bases.cpp", "real3_large", *a) for a in ((7, 4, 3), (8, 1, 2), (9, 1, 4), (10, 2, 9), (12, 3, 6), (16, 1, 0), (16, 2, 13), (17, 3, 1), (17, 4, 16))] +
    [J("c12_bases.cpp", "real3_position", n) for n in (10, 1000, 2 ** 20)])

# ---------------------------------------------------------------------------------------------------------- C13
PROPS["C13"] = Prop(
    "chains with 1..6 (thorough 1..10) momenta, every total momentum and pair of momenta, every rounding error of the double "
    "operations admitted; up to 33 momenta with the total momentum or one of the pair arbitrary; position formula for N = 10, 1000, 2^20",
    TOOLS + ["err mode: every double operation returns the exact result times (1+e), |e| <= 2^-53, plus a denormal-size error"],
    [J("c12_bases.cpp", "momentum", n, fp="err", tier="quick" if n < 7 else "thorough", weight=n ** 3) for n in range(1, 11)] +
    [J("c12_bases.cpp", "momentum", *a, fp="err") for a in ((7, 1, 4), (8, 2, 3), (9, 3, 8), (10, 2, 0), (12, 1, 5), (12, 2, 5), (13, 3, 7), (16, 3, 15), (24, 1, 9), (32, 2, 31), (33, 3, 2))] +
    [J("c12_bases.cpp", "momentum_interface", n) for n in range(1, 6)] +
    [J("c12_bases.cpp", "momentum_position", n) for n in (10, 1000, 2 ** 20)])

# ---------------------------------------------------------------------------------------------------------- C15
PROPS["C15"] = Prop(
    "histories of up to 3 operators from the sea with arbitrary flag, 64-bit momentum label and spin, every set of filled momenta "
    "and every Fermi energy; histories of 4 (thorough 5) operators with labels below 8, even ones filled; one step from any "
    "state with up to 2 particles and 2 holes (thorough 3 and 3); histories of up to 36 operators, one of them arbitrary",
    TOOLS + [EXACT],
    [J("c15_fermi_sea.cpp", e, n, 0, weight=6 ** n) for e in ("operators", "particles") for n in range(1, 4)] +
    [J("c15_fermi_sea.cpp", "monomials", n, f, 0, weight=6 ** n) for n, f in ((0, 0), (1, 0), (2, 1), (3, 3), (3, 1))] +
    [J("c15_fermi_sea.cpp", e, 4, 8, weight=6 ** 5) for e in ("operators", "particles")] +
    [J("c15_fermi_sea.cpp", "monomials", 4, f, 8, weight=6 ** 5) for f in (1, 3, 4)] +
    [J("c15_fermi_sea.cpp", e, 4, 0, tier="thorough", time=2500, weight=6 ** 5) for e in ("operators", "particles")] +
    [J("c15_fermi_sea.cpp", "monomials", 5, f, 8, tier="thorough", time=2500, weight=6 ** 6) for f in (2, 5)] +
    [J("c15_fermi_sea.cpp", "inductive", a, b, 0 if a + b < 3 else 8, tier="quick" if max(a, b) < 3 else "thorough", weight=6 ** (a + b),
       time=300 if a + b < 4 else 2500) for a in range(4) for b in range(4) if a + b < 6] +
    [J("c15_fermi_sea.cpp", "long_history", *a) for a in ((12, 3, 0), (20, 19, 8), (20, 2, 20), (36, 35, 17), (36, 12, 0))] +
    [J("c15_fermi_sea.cpp", "default_energy", n, m, weight=100) for n, m in ((1, 1), (2, 2), (3, 2))])

# ---------------------------------------------------------------------------------------------------------- C16
PROPS["C16"] = Prop(
    "all pairs of basis elements, every set of filled momenta (arbitrary energies and Fermi energy) and total momentum for "
    "1..5 (thorough 1..7) momenta, and with fixed energies 7 and 8 (thorough 9); sorting of up to 3 arbitrary entries (thorough 4) and of 40 with one arbitrary",
    TOOLS + [EXACT],
    [J("c15_fermi_sea.cpp", "listing", n, tier="quick" if n < 6 else "thorough", weight=6 ** n, time=300 if n < 6 else 2500) for n in range(1, 8)] +
    [J("c15_fermi_sea.cpp", "large_listing", n, weight=5 ** n) for n in (7, 8)] + [J("c15_fermi_sea.cpp", "large_listing", 9, tier="thorough", time=1500)] +
    [J("c15_fermi_sea.cpp", "listing_default_energy", n) for n in range(1, 4)] +
    [J("c15_fermi_sea.cpp", "sorting", n, tier="quick" if n < 4 else "thorough") for n in range(5)] +
    [J("c15_fermi_sea.cpp", "large_sorting", 40, k) for k in (0, 20, 39)])

# ---------------------------------------------------------------------------------------------------------- C17
PROPS["C17"] = Prop(
    "1..3 (thorough 1..5) momenta, every set of filled momenta (7 and thorough 9 with fixed energies, every Fermi energy), every total momentum, every complex coefficient vector with "
    "entries in (-100, 100)",
    TOOLS + [EXACT],
    [J("c15_fermi_sea.cpp", "particle_number", n, tier="quick" if n < 4 else "thorough", weight=6 ** n, time=300 if n < 4 else 2500) for n in range(1, 6)] +
    [J("c15_fermi_sea.cpp", "large_number", 7, weight=5 ** 7), J("c15_fermi_sea.cpp", "large_number", 9, tier="thorough", time=1500)])

# ---------------------------------------------------------------------------------------------------------- C14
PROPS["C14"] = Prop(
    "chains with 1..16, 23, 32, 64 and 100 sites, |J| < 1024, within 2^-36 absolute; arbitrary lattice spacings; up to 3 or 12 arbitrary "
    "two-dimensional momenta and 1..3 arbitrary lattice vectors (cosine as an uninterpreted function)",
    TOOLS + [EXACT],
    [J("c14_dispersion.cpp", "chain", n) for n in list(range(1, 17)) + [23, 32, 64, 100]] +
    [J("c14_dispersion.cpp", "planar%d" % v, 12) for v in (1, 2, 3)] +
    [J("c14_dispersion.cpp", "chain_spacing", n) for n in (1, 2, 3, 4, 5, 12)] +
    [J("c14_dispersion.cpp", "planar%d" % v, n) for v in (1, 2, 3) for n in (1, 2, 3) if v * n < 7] +
    [J("c14_dispersion.cpp", "fermi_momentum")])

# ---------------------------------------------------------------------------------------------------------- C18
PROPS["C18"] = Prop(
    "chains with 1..17 and 33 sites, all pairs of sites, spacings 1, 0.5, 1.3, 100, every filling and every Fermi momentum "
    "in (-10, 10) (sine as an uninterpreted function where its argument is not concrete), within 2^-36; square lattices up to 6 x 6 "
    "including rectangles, 8 x 9 and 12 x 10",
    TOOLS + [EXACT],
    [J("c14_dispersion.cpp", "expectation_1d", n, s, reach=("end", "zero")) for n in list(range(1, 18)) + [33] for s in range(4)
     if s == 0 or n in (2, 5, 6)] +
    [J("c14_dispersion.cpp", "translation_1d", n) for n in range(1, 10)] +
    [J("c14_dispersion.cpp", "half_filled_1d", n) for n in list(range(1, 17)) + [40]] +
    [J("c14_dispersion.cpp", "expectation_2d", x, y) for x in range(1, 7) for y in range(1, 7)] +
    [J("c14_dispersion.cpp", "expectation_2d", *a) for a in ((8, 9), (12, 10))])

# ---------------------------------------------------------------------------------------------------------- C19
PROPS["C19"] = Prop(
    "pairs of basis operators: every coincidence pattern of their sites and every real symmetric matrix <c+_a c_b> (complete for any "
    "lattice); occupation: every complex coefficient vector on 1..4, 6 and 12 sites (one-operator basis) and 1..4 sites (three-operator basis, "
    "thorough: 5), every expectation value depending on the separation; up to 6 (thorough 8) sites with one expectation value and two coefficients arbitrary",
    TOOLS + [EXACT],
    [J("c19_site_occupation.cpp", "pairs", a, b) for a in (0, 1) for b in (0, 1)] +
    [J("c19_site_occupation.cpp", "occupation1", n) for n in (1, 2, 3, 4, 6, 12)] +
    [J("c19_site_occupation.cpp", "occupation3", n, f) for n in (1, 2, 3, 4) for f in (0, 1, 2)] +
    [J("c19_site_occupation.cpp", "large_occupation", n, m, f, maxinstr=10 ** 9, weight=n ** 4) for n, m in ((5, 20), (6, 100)) for f in (0, 1)] +
    [J("c19_site_occupation.cpp", "large_occupation", 8, m, f, maxinstr=10 ** 9, weight=8 ** 4, tier="thorough", time=1500) for m, f in ((9, 0), (300, 1))] +
    [J("c19_site_occupation.cpp", "occupation3", n, f, tier="thorough", time=2500, maxinstr=10 ** 9) for n in (5,) for f in (0, 1)])

# ---------------------------------------------------------------------------------------------------------- C20
BLAZE = "Blaze is replaced by an eager stand-in (shim/blaze) whose documented preconditions are assertions"
PROPS["C20"] = Prop(
    "chains with 1..6 sites (thorough 1..8; one-operator basis 1..8 and 24), square lattices with up to 6 sites (thorough 2 x 4, 3 x 3), every complex coefficient vector, every "
    "matrix of expectation values and every Fermi momentum in (-10, 10) (sine and cosine as uninterpreted functions); two objects "
    "of sizes up to 3 evaluated alternately; chains with up to 16 and square lattices with up to 4 x 4 sites with one matrix element and two coefficients arbitrary",
    TOOLS + [EXACT, BLAZE],
    [J("c20_fermi_jump.cpp", "chain1", n, s) for n in (1, 2, 3, 4, 5, 6, 7, 8, 24) for s in (0, 1)] +
    [J("c20_fermi_jump.cpp", "chain3", n, s, weight=n ** 4, maxinstr=10 ** 9, tier="quick" if n < 7 else "thorough", time=300 if n < 7 else 2500) for n in range(1, 9) for s in (0, 1)] +
    [J("c20_fermi_jump.cpp", "chain_history", a, b) for a in (1, 2, 3) for b in (1, 2, 3)] +
    [J("c20_fermi_jump.cpp", "chain_blaze", n) for n in (1, 2, 3)] +
    [J("c20_fermi_jump.cpp", "normal_ordered", n, s) for n in (1, 2, 3, 4, 6) for s in (0, 1)] +
    [J("c20_fermi_jump.cpp", "square", x, y, tier="quick" if x * y < 7 else "thorough", weight=(x * y) ** 4, maxinstr=10 ** 9, time=300 if x * y < 7 else 2500)
     for x, y in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (2, 4), (3, 3))] +
    [J("c20_fermi_jump.cpp", "large_chain", n, m) for n, m in ((7, 20), (9, 0), (9, 100), (12, 700), (16, 1000))] +
    [J("c20_fermi_jump.cpp", "large_square", x, y, m) for x, y, m in ((3, 3, 50), (3, 4, 0), (4, 3, 100), (2, 8, 1000), (4, 4, 5))] +
    [J("c20_fermi_jump.cpp", "square_history")])

# ---------------------------------------------------------------------------------------------------------- C11
SIZES = [(x, y) for x in range(1, 8) for y in range(1, 8)]
PROPS["C11"] = Prop(
    "every Nx x Ny lattice with extents 1..5 (thorough 1..7) and every pair of sites; every Nx <= 2^16 with Ny in {1, 2, 4, 8}, every Nx <= 64 with Ny = 3 (thorough: also 5, 6, 7); positions within "
    "0.499 spacings of any site shifted by up to one period per direction with every rounding error admitted, extents 1..3, one site of lattices up to 20 x 50; "
    "arbitrary spacings and closest() in real arithmetic",
    TOOLS + [BLAZE, "err mode: every double operation returns the exact result times (1+e), |e| <= 2^-53, plus a denormal-size error"],
    [J("c11_square.cpp", e, x, y, tier="quick" if max(x, y) < 6 else "thorough") for e in ("real_space", "momentum_space") for x, y in SIZES] +
    [J("c11_square.cpp", "any_width", b, y, hist=False, tier="thorough" if y in (5, 6, 7) else "quick") for b, y in ((16, 1), (16, 2), (6, 3), (16, 4), (6, 5), (6, 6), (6, 7), (16, 8))] +
    [J("c11_square.cpp", "positions", x, y) for x, y in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2))] +
    [J("c11_square.cpp", "momentum_positions", x, y, fp="ieee") for x, y in SIZES] +
    [J("c11_square.cpp", "lookup", x, y, r, fp="err", weight=x * y, tier="quick" if max(x, y) < 4 else "thorough")
     for x in range(1, 5) for y in range(1, 5) for r in (0, 1)] +
    [J("c11_square.cpp", "closest", x, y, r) for x, y in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 2)) for r in (0, 1)] +
    [J("c11_square.cpp", "lookup", *a, fp="err") for a in ((6, 5, 1, 6, 5), (8, 9, 0, 5, 9), (9, 8, 1, 9, 1), (20, 50, 0, 17, 33), (32, 7, 1, 32, 7))] +
    [J("c11_square.cpp", "closest", *a) for a in ((7, 10, 0, 7, 3), (8, 4, 1, 1, 4), (10, 9, 0, 1, 9))] +
    [J("c11_square.cpp", "momentum_positions", x, y, fp="ieee") for x, y in ((8, 9), (12, 10), (9, 16))] +
    [J("c11_square.cpp", "real_space", 12, 9), J("c11_square.cpp", "momentum_space", 8, 10)])

# ---------------------------------------------------------------------------------------------------------- C22
PROPS["C22"] = Prop(
    "lists with 0..4 (thorough: sorting up to 5) triplets, arbitrary 64-bit rows and columns, real and complex values in (-100, 100); "
    "lists of 40 triplets with fixed rows and columns but for one, two values arbitrary",
    TOOLS + [EXACT],
    [J("c22_triplet.cpp", e, n, weight=5 ** n) for e in ("sort_real", "sort_complex") for n in range(5)] +
    [J("c22_triplet.cpp", e, n, s, weight=5 ** n) for e in ("merge_real", "merge_complex") for n in range(5) for s in (0, 1) if n < 4 or s == 0] +
    [J("c22_triplet.cpp", "large_sort", 40, 1, c) for c in (13, 61)] +
    [J("c22_triplet.cpp", "large_sort", 40, 1, c, k) for c, k in ((61, 1), (61, 21), (13, 40))] +
    [J("c22_triplet.cpp", "large_merge", 40, 1, c, k) for c, k in ((61, 1), (13, 21))] +
    [J("c22_triplet.cpp", e, 40, s, c) for e in ("large_merge", "large_merge_complex") for s, c in ((1, 13), (1, 61), (0, 13), (0, 40))] +
    [J("c22_triplet.cpp", "sort_real", 5, tier="thorough", time=2500), J("c22_triplet.cpp", "merge_real", 4, 1, tier="thorough", time=2500),
     J("c22_triplet.cpp", "merge_real", 5, 0, tier="thorough", time=2500), J("c22_triplet.cpp", "merge_complex", 4, 1, tier="thorough", time=2500)])

# ---------------------------------------------------------------------------------------------------------- C23
PROPS["C23"] = Prop(
    "dimensions 1..3, every real or complex (up to 2) matrix, vector and real step size in (-4, 4); dense, sparse and function matrices; "
    "three consecutive steps with sizes 1..2 and all kinds of matrices, also changed in place; dimension 12 with one matrix of each kind and every vector",
    TOOLS + [EXACT, BLAZE],
    [J("c23_rk4.cpp", "real_step", n, k) for n in (1, 2, 3) for k in (0, 1, 2)] +
    [J("c23_rk4.cpp", "complex_step", n, k) for n in (1, 2) for k in (0, 1, 2)] +
    [J("c23_rk4.cpp", "history", a, b, n, k) for a in (0, 1, 2) for b in (0, 1, 2) for n, k in ((1, 2), (2, 1), (2, 2))] +
    [J("c23_rk4.cpp", e, 12, k) for e in ("real_step", "complex_step") for k in (0, 1, 2)] +
    [J("c23_rk4.cpp", "real_in_place", n, k) for n in (1, 2) for k in (0, 1, 2)] + [J("c23_rk4.cpp", "complex_in_place", 1, k) for k in (0, 1, 2)] +
    [J("c23_rk4.cpp", "product", n) for n in (1, 2, 3)])

# ---------------------------------------------------------------------------------------------------------- C24
PROPS["C24"] = Prop(
    "all finite doubles (bit-precise) for the tests, tolerances in [0, 1e300); all reals for the products; all 64-bit integers",
    TOOLS + ["products: " + EXACT],
    [J("c24_number.cpp", "products")] +
    [J("c24_number.cpp", e, fp="ieee", qtime=100000) for e in ("real_tests", "real_tolerance", "complex_tests", "complex_tolerance", "integers", "traits")])

# ---------------------------------------------------------------------------------------------------------- C25
PROPS["C25"] = Prop(
    "function matrices, dense matrices and compressed matrices (of several patterns) with up to 3 x 3 (thorough, but compressed: 4 x 4) arbitrary real or complex entries, also non-quadratic ones; "
    "function and dense matrices with up to 33 x 33 entries, up to two of them (at several places) arbitrary",
    TOOLS + [EXACT, BLAZE],
    [J("c25_matrix.cpp", e, r, c, p, tier="quick" if max(r, c) < 4 else "thorough", weight=4 ** (r * c)) for e in ("real_predicates", "complex_predicates")
     for r, c in ((0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (1, 2), (2, 1), (3, 2)) for p in range(5)] +
    [J("c25_matrix.cpp", e, r, c, p, q, tier="quick" if q in (5, 11, 15) else "thorough") for e in ("real_compressed", "complex_compressed")
     for r, c in ((1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (3, 2)) for p in range(3) for q in range(16)] +
    [J("c25_matrix.cpp", e, r, c, p, q, o) for e in ("real_equality", "complex_equality") for r, c, p, q in
     ((0, 0, 0, 0), (1, 1, 1, 1), (2, 2, 2, 2), (3, 3, 3, 3), (2, 3, 2, 3), (3, 2, 3, 2), (2, 3, 3, 2), (1, 2, 1, 1), (1, 2, 2, 2), (2, 1, 1, 1))
     for o in (0, 1)] +
    [J("c25_matrix.cpp", e, n, n, p, w) for e in ("real_large", "complex_large") for n in (17, 33) for p in range(5) for w in range(5)] +
    [J("c25_matrix.cpp", e, 17, 17, 17, 17, o, w) for e in ("real_large_equality", "complex_large_equality") for o in (0, 1) for w in range(5)])

# ---------------------------------------------------------------------------------------------------------- C21
PROPS["C21"] = Prop(
    "every hopping and interaction in (-100, 100) and, in momentum space, every band; real space: 3 sites against the Fock space, chains "
    "of 3..8, 12 and 16 (thorough 24) sites and square lattices 3 x 3 to 4 x 4 and 5 x 3 (thorough 4 x 5) against the same rules; momentum space: 2 and 3 momenta (thorough 4) against the Fock "
    "space, 1..5, 7, 9 and 12 (thorough 16) momenta against the rules; at least three sites per direction in real space",
    TOOLS + [EXACT, BLAZE],
    [J("c21_liouvillian.cpp", "kinetic_fock", n) for n in (3, 4)] +
    [J("c21_liouvillian.cpp", e, 3, weight=1000, maxinstr=10 ** 9) for e in ("full_fock", "full_fock_again")] +
    [J("c21_liouvillian.cpp", "rules", weight=1000, maxinstr=10 ** 9), J("c21_liouvillian.cpp", "make")] +
    [J("c21_liouvillian.cpp", "chain_rule", n, maxinstr=10 ** 9, tier="quick" if n < 20 else "thorough") for n in (3, 4, 5, 6, 7, 8, 12, 16, 24)] +
    [J("c21_liouvillian.cpp", "square_rule", x, y, weight=500, maxinstr=10 ** 9, tier="quick" if x * y < 20 else "thorough", time=300 if x * y < 20 else 2500)
     for x, y in ((3, 3), (3, 4), (4, 3), (4, 4), (5, 3), (4, 5))] +
    [J("c21_liouvillian.cpp", "normal_ordered_chain", n, maxinstr=10 ** 9) for n in (3, 4, 5, 8)] +
    [J("c21_liouvillian.cpp", "normal_ordered_square", 3, 3, maxinstr=10 ** 9)] +
    [J("c21_liouvillian.cpp", "momentum_fock", n, q, maxinstr=10 ** 9, weight=1000, tier="quick" if n < 4 else "thorough") for n in (2, 3, 4) for q in range(n)] +
    [J("c21_liouvillian.cpp", "momentum_rule", n, maxinstr=10 ** 9, weight=n ** 4, tier="quick" if n < 16 else "thorough") for n in (1, 2, 3, 4, 5, 7, 9, 12, 16)])

# ---------------------------------------------------------------------------------------------------------- C27
PROPS["C27"] = Prop(
    "operators with 1..4 indices (all 64-bit values, spins, flags; symbols of 0..3, 17 and 20 arbitrary characters), monomials and terms with "
    "0..4 and 6 operators (9, 12 and 17 with one flag and spin arbitrary), prefactors with 0..3 deltas and any integer or real value, tuples with 1..4 elements",
    TOOLS + ["numbers are compared by value, not by their digits"],
    [J("c27_printing.cpp", e) for e in ("one_index", "one_spin", "two_indices", "two_indices_swapped", "three_indices", "four_indices",
                                       "kronecker_numbers", "tuples", "indices", "index_equality")] +
    [J("c27_printing.cpp", "symbols", n) for n in (0, 1, 2, 3, 20)] +
    [J("c27_printing.cpp", "symbol%d" % len(l), *l) for l in ((1,), (2,), (1, 1), (2, 1), (17, 1), (1, 2, 1), (1, 1, 2), (2, 1, 1, 1))] +
    [J("c27_printing.cpp", e, n) for e in ("monomial", "term") for n in (0, 1, 2, 3, 4, 6)] +
    [J("c27_printing.cpp", e, n, k) for e in ("monomial", "term") for n, k in ((9, 3), (12, 1), (17, 17))] +
    [J("c27_printing.cpp", "kronecker", a, b) for a in range(3) for b in range(3)] +
    [J("c27_printing.cpp", e, n) for e in ("prefactor_integer", "prefactor_unsigned", "prefactor_real") for n in range(4)])

# ---------------------------------------------------------------------------------------------------------- C26
def T(threads, src, entry, *args, **kw):
    return [J(src, entry, *args, omp=True, threads=t, **kw) for t in threads]


def P(src, entry, *args, **kw):
    heavy = kw.pop("heavy", False)
    return [J(src, entry, *args, omp=True, threads=t, tier="thorough" if heavy and t == 3 else "quick", time=2500 if heavy and t == 3 else 300, **kw)
            for t in (2, 3)]


PROPS["C26"] = Prop(
    "2 and 3 (smallest inputs: 5 and 8) threads, every distribution of the iterations of one parallel region into contiguous shares and every order of the "
    "threads between barriers (the other regions split evenly); lattices with 1..3 (2 and 3 threads: up to 12) sites, all inputs as in C12, C13, C14, C18, C19, C20, C23",
    TOOLS + [EXACT, "two accesses of different threads to one byte between two barriers, one of them writing and not both "
             "synchronised, count as a conflict; libomp is replaced by its documented semantics"],
    [J("c26_serial.cpp", "serial")] +
    sum([P("c12_bases.cpp", e, n, heavy=n > 2) for e in ("real1_chain", "real3_chain") for n in (1, 2, 3)], []) +
    sum([P("c12_bases.cpp", "momentum_interface", n) for n in (1, 2)], []) +
    sum([P("c14_dispersion.cpp", "chain", n) for n in (1, 2, 3, 5)], []) + P("c14_dispersion.cpp", "planar2", 2) + P("c14_dispersion.cpp", "planar2", 3) +
    sum([P("c14_dispersion.cpp", "expectation_1d", n, 0, reach=("end", "zero")) for n in (1, 2, 5)], []) +
    sum([P("c14_dispersion.cpp", "expectation_2d", x, y) for x, y in ((1, 1), (2, 2), (4, 2))], []) +
    sum([P("c19_site_occupation.cpp", "occupation1", n) for n in (1, 2, 3)], []) +
    sum([P("c19_site_occupation.cpp", "occupation3", n, f) for n in (1, 2) for f in (0, 1)], []) +
    sum([P("c20_fermi_jump.cpp", "chain1", n, 0) for n in (1, 2, 3)], []) +
    sum([P("c20_fermi_jump.cpp", "chain3", n, 0) for n in (1, 2, 3)], []) +
    sum([P("c20_fermi_jump.cpp", "square", x, y, heavy=x * y > 2) for x, y in ((1, 2), (2, 2))], []) +
    sum([P("c20_fermi_jump.cpp", "normal_ordered", n, 0) for n in (1, 2, 3)], []) +
    sum([P("c23_rk4.cpp", "product", n) for n in (1, 2, 3)], []) +
    sum([P("c32_reference.cpp", "theory", n, 1, defs=("VP_PROGRAM=1",)) for n in (1, 2, 3)], []) +
    # more threads than there is work, and more work than a few iterations
    T((5, 8), "c12_bases.cpp", "real1_chain", 3) + T((2,), "c12_bases.cpp", "real1_chain", 12) + T((5,), "c12_bases.cpp", "real3_chain", 1) +
    T((5, 8), "c14_dispersion.cpp", "chain", 3) + T((2, 3), "c14_dispersion.cpp", "chain", 12) + T((5, 8), "c14_dispersion.cpp", "planar2", 3) +
    T((5, 8), "c14_dispersion.cpp", "expectation_1d", 3, 0, reach=("end", "zero")) + T((2,), "c14_dispersion.cpp", "expectation_1d", 9, 0, reach=("end", "zero")) +
    T((5,), "c14_dispersion.cpp", "expectation_2d", 2, 2) +
    T((5, 8), "c19_site_occupation.cpp", "occupation1", 3) + T((2, 3), "c19_site_occupation.cpp", "occupation1", 9) + T((5,), "c19_site_occupation.cpp", "occupation3", 1, 1) +
    T((5, 8), "c20_fermi_jump.cpp", "chain1", 3, 0) + T((2, 3), "c20_fermi_jump.cpp", "chain1", 10, 0) + T((5,), "c20_fermi_jump.cpp", "chain3", 2, 0) +
    T((5,), "c20_fermi_jump.cpp", "square", 1, 2) + T((5, 8), "c20_fermi_jump.cpp", "normal_ordered", 2, 0) +
    T((5, 8), "c23_rk4.cpp", "product", 3) + T((2, 3), "c23_rk4.cpp", "product", 12) +
    T((5,), "c32_reference.cpp", "theory", 3, 1, defs=("VP_PROGRAM=1",)))

# ---------------------------------------------------------------------------------------------------------- C28
PROPS["C28"] = Prop(
    "0..6, 8, 40 and 1000 (thorough also 7, 20, 250) steps since the last measurement at any time in [0, 1000000], step sizes 1, 0.01, 0.1, 0.3, 1/3, 0.001, 2.5 "
    "with every rounding error admitted and times off by up to 3/8 step; arbitrary step sizes in real arithmetic; all 64-bit intervals; "
    "loops of 20 steps with accumulated rounding errors, intervals 1..7; of 1000 steps, interval 100",
    TOOLS + ["err mode: every double operation returns the exact result times (1+e), |e| <= 2^-53, plus a denormal-size error",
             "the application headers around the function (command line, logging, checkpoint files) are replaced by empty ones"],
    [J("c28_interval.cpp", "steps", n, d, fp="err", tier="quick" if n in (0, 1, 2, 3, 4, 5, 6, 8, 40, 1000) else "thorough") for n in list(range(9)) + [20, 40, 250, 1000] for d in range(7)] +
    [J("c28_interval.cpp", "any_step_size", n) for n in range(6)] + [J("c28_interval.cpp", "not_before")] +
    [J("c28_interval.cpp", "loop", 20, k, d, fp=f) for k in range(1, 8) for d in (1, 2) for f in ("err", "exact")] +
    [J("c28_interval.cpp", "loop", n, k, d, fp=f) for n, k, d in ((300, 50, 1), (1000, 100, 2), (60, 20, 4)) for f in ("err", "exact")])

# ---------------------------------------------------------------------------------------------------------- C31
def _program(n, *args, **kw):
    return J("c31_programs.cpp", "series", *args, defs=("VP_PROGRAM=%d" % n,) + (("NDEBUG",) if n == 7 else ()), **dict({"time": 150}, **kw))


PROPS["C31"] = Prop(
    "the main functions of hubbard_real_1d_rk4, _rk4_jump, _rk4_coefficients, _kinetic_rk4, _kinetic_rk4_coefficients (3..6 sites, fewer symbols: up to 24), "
    "hubbard_real_2d_rk4_jump (3x3, 3x4, 4x3 sites) and hubbard_momentum_1d_rk4 (3..5, 9 and 10 momenta): every end time up to 4 steps (3x3: 2; fixed couplings: 12 or 20), "
    "every 64-bit measurement interval, arbitrary couplings, filling factors and Fermi momenta (one or two of them arbitrary at a time, "
    "the others fixed), step sizes 0.25, 0.01, 0.1",
    TOOLS + [EXACT, "command line, logging, checkpoint and output files are stand-ins: options come from variables, rows are recorded",
             "the basis, matrix, observable and integrator classes are the repository's own (decided by C12, C18-C21, C23); "
             "what is decided here is how the programs combine them"],
    [_program(1, *a) for a in ((3, 2, 0, 4, 0), (3, 2, 0, 2, 4), (4, 2, 0, 2, 3), (4, 2, 0, 2, 8), (4, 2, 0, 2, 16), (3, 2, 1, 2, 1), (3, 2, 2, 2, 2))] +
    [_program(2, *a) for a in ((3, 2, 0, 4, 0), (3, 2, 0, 3, 4), (4, 2, 0, 2, 8), (4, 2, 0, 2, 16), (3, 2, 1, 2, 1), (3, 2, 2, 2, 2), (4, 2, 0, 2, 4), (5, 2, 0, 1, 4), (8, 2, 0, 1, 4), (9, 2, 0, 1, 1))] +
    [_program(3, *a, weight=100) for a in ((3, 3, 0, 2, 8), (3, 3, 1, 1, 1), (3, 3, 0, 1, 16), (3, 4, 0, 1, 4), (4, 3, 0, 1, 2))] +
    [_program(4, *a) for a in ((3, 2, 0, 4, 0), (5, 2, 1, 4, 1), (5, 2, 0, 3, 8), (5, 2, 0, 3, 16), (6, 2, 2, 3, 5), (4, 2, 0, 4, 7), (16, 2, 0, 4, 4))] +
    [_program(5, *a) for a in ((3, 2, 0, 4, 1), (5, 2, 1, 3, 1), (6, 2, 2, 2, 1), (24, 2, 0, 4, 1))] +
    [_program(6, *a) for a in ((3, 2, 0, 4, 0), (3, 2, 0, 3, 3), (3, 2, 2, 2, 3), (4, 2, 0, 2, 1), (8, 2, 0, 1, 1))] +
    [_program(7, *a, weight=100) for a in ((3, 2, 0, 1, 0), (5, 2, 0, 1, 0), (9, 2, 0, 1, 0), (10, 2, 0, 1, 0), (3, 2, 0, 1, 2), (4, 2, 0, 1, 1))] +
    [_program(n, 3, 2, 0, 12 if n in (1, 2, 6) else 20, 0, weight=50) for n in (1, 2, 4, 5, 6)] +
    [_program(3, 3, 3, 0, 4, 0, tier="thorough", time=1500), _program(3, 4, 4, 0, 1, 4, tier="thorough", time=1500),
     _program(1, 5, 2, 0, 3, 4, tier="thorough", time=1500), _program(2, 6, 2, 0, 2, 4, tier="thorough", time=1500),
     _program(7, 3, 2, 1, 1, 1, tier="thorough", time=1500), _program(7, 6, 2, 0, 1, 1, tier="thorough", time=1500)])

# ---------------------------------------------------------------------------------------------------------- C32
PROPS["C32"] = Prop(
    "hubbard_real_1d_kinetic_theory: rings of 1..8, 16 and 30 sites, up to 3 times (2 sites: 30), any values of the Bessel functions in [-1, 1], every exponent of "
    "-i below 2^31; hubbard_trivial: up to 4 steps (5) with arbitrary hopping or interaction in (-4, 4), occupation of every vector of "
    "four complex coefficients with parts in [-4, 4]; hubbard_dispersion_1d: rings of 1..8, 33 and 64 sites",
    TOOLS + [EXACT, "Boost's Bessel function returns arbitrary values; files and program options are stand-ins; sizes, couplings and numbers of steps, "
             "constants in the programs, are set through the hook IEOMPP_VERIFY"],
    [J("c32_reference.cpp", "powers", defs=("VP_PROGRAM=1",))] +
    [J("c32_reference.cpp", "theory", n, k, defs=("VP_PROGRAM=1",)) for n, k in ((1, 3), (2, 3), (3, 3), (4, 2), (5, 3), (8, 2), (16, 2), (30, 1), (2, 30))] +
    [J("c32_reference.cpp", e, defs=("VP_PROGRAM=2",)) for e in ("occupation", "phase")] +
    [J("c32_reference.cpp", "trivial", n, k, defs=("VP_PROGRAM=2",)) for n, k in ((0, 0), (1, 1), (2, 2), (3, 1), (4, 2))] +
    [J("c32_reference.cpp", "trivial", 5, 1, defs=("VP_PROGRAM=2",), tier="thorough")] +
    [J("c32_reference.cpp", "dispersion", n, defs=("VP_PROGRAM=3",)) for n in (1, 2, 3, 4, 7, 8, 33, 64)])


# ---------------------------------------------------------------------------------------------------------- C29, C33
MEMORY = ("files are kept in memory, archives store dimensions and elements; std::regex is replaced by an automaton built from the code's own "
          "pattern (cross-checked with libstdc++); lines contain every character but the line feed")
PROPS["C29"] = Prop(
    "three checkpoints of 0..3 arbitrary complex numbers each and any time (300 in a row; thorough 400), read into vectors of 0..3; matrices up to 3 x 3; output files of "
    "up to 6 lines with up to 5 (thorough 8) arbitrary characters each (of two lines behind up to 45 fixed ones), every 64-bit number of rows to keep",
    TOOLS + [EXACT, MEMORY],
    [J("c29_checkpoint.cpp", "checkpoints", *a, hist=False) for a in ((1, 2, 0, 3), (3, 3, 3, 0), (2, 1, 3, 2), (0, 0, 1, 1))] +
    [J("c29_checkpoint.cpp", "start", *a, hist=False) for a in ((1, 2, 0), (2, 1, 1), (3, 3, 1))] +
    [J("c29_checkpoint.cpp", "many_checkpoints", 300, hist=False), J("c29_checkpoint.cpp", "many_checkpoints", 400, hist=False, tier="thorough")] +
    [J("c29_checkpoint.cpp", "matrix_file", *a, hist=False) for a in ((1, 1, 0), (2, 2, 1), (2, 3, 0), (3, 2, 1), (3, 3, 1), (0, 0, 1))] +
    [J("c29_checkpoint.cpp", "clean", *(a + (9,) * (6 - len(a))), hist=False)
     for a in ((), (0,), (5,), (2, 1), (0, 3), (3, 2, 1), (1, 3, 2), (4, 4, 4), (2, 2, 2, 2, 2, 2), (0, 3, 0, 3, 0, 3))] +
    [J("c29_checkpoint.cpp", "clean", *a, hist=False) for a in ((2, 9, 9, 9, 9, 9, 20), (0, 2, 9, 9, 9, 9, 45), (9, 9, 9, 9, 9, 9, 45))] +
    [J("c29_checkpoint.cpp", "clean", *(a + (9,) * (6 - len(a))), hist=False, tier="thorough", time=1500)
     for a in ((8, 8, 7), (8, 8, 8), (4, 4, 4, 4, 4, 4))])
PROPS["C33"] = Prop(
    "lines of 0..5, 8, 12, 24 and 80 arbitrary characters; inputs of up to 3 lines with up to 5 characters each, with and without a line feed at the end; up to 40 fixed lines to be skipped before them",
    TOOLS + [MEMORY],
    [J("c33_lines.cpp", "skippable", n) for n in (0, 1, 2, 3, 4, 5, 8, 12, 24, 80)] +
    [J("c33_lines.cpp", "next", *a) for a in ((9, 9, 9, 0), (0, 9, 9, 0), (3, 9, 9, 0), (3, 9, 9, 1), (2, 1, 9, 0), (2, 2, 9, 1), (1, 0, 3, 0), (2, 1, 2, 1), (5, 5, 5, 0), (2, 1, 9, 0, 40), (9, 9, 9, 0, 40), (3, 9, 9, 1, 7))])

# ---------------------------------------------------------------------------------------------------------- C34
PROPS["C34"] = Prop(
    "a program with nine options; each pair of N, J, dt, Nx and out given on the command line, as one word or two, "
    "in a response file (with and without a line feed at its end), in both, or left out, values of two arbitrary characters (digits; "
    "for out any printable ones but separators); with and without LOGNAME in the environment",
    TOOLS + [EXACT, MEMORY, "Boost.Program_options (a binary library), the paths of Boost.Filesystem and std::regex are stand-ins: "
                            "no abbreviated, repeated, empty or multi-valued options; log messages are not judged"],
    [J("c34_options.cpp", "options", a, b, weight=40) for a in range(5) for b in range(a + 1, 5)] +
    [J("c34_options.cpp", e, k, hist=False) for e in ("missing", "help") for k in (0, 1)])

# ---------------------------------------------------------------------------------------------------------- C35
PROPS["C35"] = Prop(
    "every assignment of 2 and 3 sites (thorough 4) to the symbols, every pair of occupation number states",
    TOOLS + [EXACT, "standard output is a stand-in that records the terms written to it; how terms are printed is C27"],
    [J("c35_commutators.cpp", "program", n, defs=("VP_PROGRAM=%d" % p,), weight=50) for p in (1, 2) for n in (2, 3)] +
    [J("c35_commutators.cpp", "program", 4, defs=("VP_PROGRAM=%d" % p,), tier="thorough", time=1500) for p in (1, 2)])

# ---------------------------------------------------------------------------------------------------------- C36
EIG, BLZ = ("VP_EIGEN=1",), ("VP_EIGEN=0",)
PROPS["C36"] = Prop(
    "vectors and matrices of dimension 1..3, entries in (-4, 4); dimension 17 with one fixed matrix; function matrices after a product of another dimension, and with 2 and 3 threads",
    TOOLS + [EXACT, "Eigen is compiled with EIGEN_DONT_VECTORIZE"],
    [J("c36_products.cpp", "numbers", defs=BLZ)] +
    [J("c36_products.cpp", "dot_dynamic", n, defs=d) for d in (EIG, BLZ) for n in (1, 2, 3)] +
    [J("c36_products.cpp", e, defs=d) for d in (EIG, BLZ) for e in ("dot_two", "dot_three")] +
    [J("c36_products.cpp", e, n, k, defs=d) for d in (EIG, BLZ) for e in ("function_real", "function_complex") for n, k in ((1, 0), (2, 0), (3, 0), (2, 2), (2, 3), (3, 1))] +
    [J("c36_products.cpp", e, n, defs=d) for d in (EIG, BLZ) for e in ("matrix_real", "matrix_complex") for n in (1, 2, 3)] +
    [J("c36_products.cpp", e, 17, 0, defs=d) for d in (EIG, BLZ) for e in ("dot_dynamic", "function_real", "function_complex", "matrix_real", "matrix_complex")] +
    [J("c36_products.cpp", "function_complex", 3, 17, defs=d) for d in (EIG, BLZ)] +
    sum([P("c36_products.cpp", "function_real", n, k, defs=d) for d in (EIG, BLZ) for n, k in ((1, 0), (2, 0), (3, 0), (2, 3))], []))

# ------------------------------------------------------------------------------------------------------- history
# What a call returns must not depend on what was computed before (function-local statics, caches): for every harness
# some runs are repeated after a run of the same harness with other parameters on fixed values.
def _history(jobs):
    groups = {}
    for j in jobs:
        if j.hist and not j.omp and j.tier == "quick" and not j.pre:
            groups.setdefault((j.src, j.entry, j.fp, j.defs), []).append(j)
    extra = []
    for g in groups.values():
        g = sorted(g, key=lambda j: (j.weight, sum(j.args), j.args))
        a, b = g[len(g) // 3], g[2 * len(g) // 3]
        if a is b and len(g) > 1:
            b = g[len(g) // 3 - 1]
        for x, y in ((a, b), (b, a)) if a is not b else ((a, a),):
            extra.append(Job(x.src, x.entry, x.args, fp=x.fp, defs=x.defs, time=x.time, qtime=x.qtime, maxinstr=x.maxinstr,
                             reach=x.reach, weight=x.weight, pre="%s:%s" % (y.entry, ",".join(map(str, y.args)))))
    return extra


for _p in PROPS.values():
    _p.jobs = _p.jobs + _history(_p.jobs)
