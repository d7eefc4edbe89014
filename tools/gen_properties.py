#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as Python so that the text stays readable)."""
import json, os, sys
P = []
H = "include/ieompp/"

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Operators: equality, index access, conjugation and factories",
 "Two ladder operators compare equal exactly when both the creator flag and every index agree; same_indices ignores only the flag; reading an index by position, or all indices as a tuple, returns what the operator was built with. "
 "The conjugate of an operator has the flipped creator flag and identical indices, conjugating twice gives the original back, and make_creator/make_annihilator/make_operator build exactly the requested operator. This holds for operators with one, two or three indices.",
 ["inputs"], "all index values (full 64-bit), both flags, operators with 1, 2 and 3 indices",
 "Tests compare a handful of literal operators; a comparison that ignores one index for particular values, or a truncated index, is not seen.",
 [H+"algebra/operator/operator.hpp", H+"algebra/operator/get_index.hpp", H+"algebra/operator/make.hpp", H+"tuple.hpp"],
 [("Operator::operator==, same_indices, conjugate", H+"algebra/operator/operator.hpp"), ("index tuple accessors", H+"algebra/operator/get_index.hpp")])

prop("C02", "Operator and term orderings are strict total orders",
 "The ascending and the descending ordering of operators are each irreflexive, antisymmetric, transitive and total up to operator equality, and are converses of each other, so sorting and ordered containers are well defined. "
 "The term orderings are strict weak orders, converses of each other, and two terms are incomparable only if their operator strings are equal.",
 ["inputs"], "all triples of operators with arbitrary 64-bit indices; all triples of terms with up to 2 operators each",
 "Order laws quantify over all pairs/triples; no test exercises the ordering functors.",
 [H+"algebra/operator/order.hpp", H+"algebra/term/order.hpp"],
 [("OperatorSmaller/OperatorGreater", H+"algebra/operator/order.hpp"), ("TermSmaller/TermGreater", H+"algebra/term/order.hpp")])

prop("C03", "Monomials: product is concatenation, conjugation an anti-automorphism",
 "Multiplying monomials (also a monomial with itself, or with a single operator) appends the right operand's operators unchanged after the left operand's. The conjugate reverses the order and conjugates every operator, so (AB)^+ = B^+A^+ and (A^+)^+ = A, and is_conjugate holds exactly for a monomial and its conjugate.",
 ["inputs"], "all monomials of length 0..3 (products up to 6) over operators with arbitrary 64-bit indices, including the empty monomial and self-multiplication",
 "Tests use one or two literal monomials and never alias operands.",
 [H+"algebra/monomial/monomial.hpp"], [("Monomial::operator*=, conjugate, is_conjugate", H+"algebra/monomial/monomial.hpp")])

prop("C04", "Terms: product, conjugation and collection preserve the represented sum",
 "A product of terms multiplies the prefactors and concatenates the operator strings, and the conjugate of a term has the conjugated prefactor and conjugated string. "
 "Collecting a list of terms into unique terms yields pairwise distinct operator strings, each carrying the sum of the prefactors of all collected terms with that string.",
 ["inputs"], "terms with up to 2 operators per string, arbitrary indices and real/complex prefactors, lists of up to 4 terms",
 "No test covers terms at all; aliasing and merging depend on which of many strings coincide.",
 [H+"algebra/term/term.hpp", H+"algebra/term/list.hpp"], [("Term::operator*=, conjugate", H+"algebra/term/term.hpp"), ("copy_as_unique_terms", H+"algebra/term/list.hpp")])

prop("C05", "Anticommutation of operators follows the canonical anticommutation relations",
 "Two ladder operators are reported to anticommute exactly if they are not a creator/annihilator pair with identical indices, i.e. exactly if their anticommutator is zero. For operators whose indices are symbols, the anticommutator contributes one Kronecker delta per index position whose values are not identical, and reports zero when two concrete indices differ.",
 ["inputs"], "all pairs of operators with arbitrary indices and flags (2 and 3 indices); symbolic/concrete index mixes",
 "Only used indirectly by examples; the case split over flag and index coincidences is not tested.",
 [H+"algebra/anticommutator.hpp"], [("anticommutates, anticommutator", H+"algebra/anticommutator.hpp")])

prop("C06", "Commutator of operator products expands exactly AB - BA",
 "The list of terms produced for the commutator of two terms equals AB - BA as an operator on Fock space: applied to any occupation-number state both sides give the same vector, including all signs and prefactors. Terms that vanish identically are harmless, and no term is lost or duplicated.",
 ["inputs"], "all pairs of operator strings with lengths up to (4,4) and even length product, every creator flag, every coincidence pattern of the indices, every Fock state of the modes involved",
 "Which contractions occur depends on the coincidence pattern of all indices and flags: exponentially many cases; no stable test evaluates a commutator.",
 [H+"algebra/commutator.hpp", H+"algebra/anticommutator.hpp", H+"algebra/term/list.hpp"], [("commutate", H+"algebra/commutator.hpp")])

prop("C07", "Symbolic prefactors: product values, Kronecker canonical order",
 "Multiplying symbolic prefactors multiplies the numeric parts and keeps every Kronecker delta of both factors; Kronecker deltas compare equal irrespective of the order of their two indices. Ordering the deltas of a prefactor only permutes them (each written smaller index first) into an ascending sequence that is the same for every initial arrangement.",
 ["inputs"], "prefactors with up to 3 deltas each with arbitrary indices; all arrangements",
 "Canonical form is a statement about all permutations of deltas; there is no test for symbolic prefactors.",
 [H+"symbolic/prefactor.hpp", H+"algebra/kronecker.hpp"], [("Prefactor::operator*=, order_kroneckers", H+"symbolic/prefactor.hpp"), ("Kronecker::operator==", H+"algebra/kronecker.hpp")])

prop("C08", "Integer iterators obey random-access iterator laws",
 "Advancing an index iterator by n, stepping it n times, or adding and then subtracting n are consistent; distances are inverse to advancing; postfix forms return the old position; and the comparison operators agree with the order of the positions.",
 ["inputs"], "all start values and offsets (full width, no wrap-around)",
 "Only simple loops use the iterator in tests; += / -= / postfix forms are never exercised.",
 [H+"iterators/integer_iterator.hpp"], [("IntegerIterator", H+"iterators/integer_iterator.hpp")])

prop("C09", "Periodic chain: neighbours, distances and iteration are consistent",
 "On a periodic chain of N sites the two neighbours of a site are the sites one step away modulo N, the unique neighbours of all sites together list every bond of the ring exactly once, and a site is neighbouring exactly its neighbours. "
 "The lattice distance is symmetric, zero only for equal sites, invariant under translation, equals the shortest way around the ring, and iterating the lattice visits 0..N-1 in order.",
 ["inputs", "configurations"], "every chain length N up to 2^32 and every pair of sites (symbolic 64-bit values)",
 "Tests check one fixed chain length.",
 [H+"lattices/periodic_chain.hpp"], [("neighbors, unique_neighbors, neighboring, lattice_distance", H+"lattices/periodic_chain.hpp")])

prop("C10", "Periodic chain: positions and indices are inverse, periodic mappings",
 "Looking up the index at the position of a site gives the site back, shifting a position by whole periods does not change the index, and any position that is closer to one site than half a spacing (modulo the period) maps to exactly this site, in real and in momentum space. The returned index is always smaller than the chain length.",
 ["inputs", "configurations"], "every real position within +-2 periods (with all floating-point rounding errors admitted), chain lengths 1..16",
 "Tests look up grid points of a single chain; off-grid and wrap-around positions are uncountable.",
 [H+"lattices/periodic_chain.hpp"], [("operator[], operator(), closest", H+"lattices/periodic_chain.hpp")])

prop("C11", "Periodic square lattice: indexing, neighbours and distances are consistent",
 "On a periodic Nx x Ny lattice the site index and the pair of coordinates are in bijection, the four neighbours are the sites one step in +-x and +-y with periodic wrap, the unique neighbours of a site are the next sites in +x and +y, so that all sites together list every bond once, neighbouring is symmetric and agrees with the neighbour list, and the lattice distance holds the periodic distance per direction. Positions and indices are inverse up to whole periods and any position closer than half a spacing to a site maps to that site, in real and momentum space. This also holds when Nx differs from Ny.",
 ["inputs", "configurations"], "lattices with 1 <= Nx,Ny <= 6 incl. rectangular ones and every pair of sites; positions with rounding errors admitted",
 "The test program for this lattice cannot be built here (Blaze is missing), and it uses one square lattice.",
 [H+"lattices/periodic_square_lattice.hpp"], [("index, x_index, y_index, neighbors, lattice_distance", H+"lattices/periodic_square_lattice.hpp")])

prop("C12", "Real-space operator bases enumerate each operator exactly once",
 "The one-operator basis holds exactly one creator per site in site order; the three-operator basis holds, after these, every string c+_{i,up} c+_{j,dn} c_{k,dn} exactly once, and looking up the position of the string (i,j,k) yields the position where it is stored. The conjugate basis holds the conjugate of the operator at each position.",
 ["inputs", "configurations"], "chains with 1..6 sites, every (i,j,k)",
 "Tests check basis sizes and one lattice; the conjugate basis is filled in a parallel loop and never tested.",
 [H+"models/hubbard_real_space/basis.hpp"], [("Basis1, Basis3, get_3op_index, get_conjugate", H+"models/hubbard_real_space/basis.hpp")])

prop("C13", "Momentum-space basis conserves momentum and is indexed consistently",
 "The momentum-space basis for total momentum q holds c+_{q,up} first and then, for each pair of momenta (k1,k2), exactly one three-operator string whose third momentum is k1+k2-q modulo the Brillouin zone, despite floating-point rounding. Looking up the position for (k1,k2) yields the position of that string, and the conjugate basis holds the conjugate at each position.",
 ["inputs", "configurations"], "chains with 1..8 momenta, every q and (k1,k2)",
 "Tests only look at one lattice size for one q; the index goes through floating-point momenta.",
 [H+"models/hubbard_momentum_space/basis.hpp", H+"lattices/periodic_chain.hpp"], [("Basis3, get_3op_index", H+"models/hubbard_momentum_space/basis.hpp")])

prop("C14", "Dispersion equals the tight-binding band and fermi momentum scales with filling",
 "The dispersion of a lattice evaluated at a site index equals minus twice the hopping times the sum of the cosines of the products of that site's momentum with the lattice vectors (the lattice spacing on a chain), for every site of the lattice and every hopping. The Fermi momentum of the half-filled chain model is pi times the filling factor.",
 ["inputs", "configurations"], "every hopping value, lattice sizes 1..8 (1D) and 1..4 per direction (2D), every site; cosine treated as the library function",
 "Tests use one lattice and one hopping.",
 [H+"models/hubbard/dispersion.hpp"], [("Dispersion, calculate_fermi_momentum_1d", H+"models/hubbard/dispersion.hpp")])

prop("C15", "Excited Fermi sea vanishes exactly when the Fock-space product does",
 "Starting from a filled Fermi sea and applying any sequence of creators and annihilators, the state is reported as vanished exactly if the corresponding product annihilates the sea in Fock space (double creation or annihilation of an unoccupied momentum), separately for each spin; a momentum is filled initially if its dispersion is below the Fermi energy. The recorded particles and holes of each spin are exactly the differences to the initial sea, each listed once in ascending order, so that the state is reported to be the initial sea exactly if all occupations are restored; a monomial is applied rightmost operator first.",
 ["inputs", "histories"], "every initial state with up to 3 recorded excitations per list and every next operator (one inductive step), plus all operator sequences of length up to 4 from the initial sea; all momenta and both spins, every chain length up to 8",
 "Tests create one or two excitations on one lattice; the Pauli bookkeeping depends on the history.",
 [H+"models/hubbard_momentum_space/excited_fermi_sea.hpp"], [("create_particle, annihilate_particle, apply_operator, apply_monomial", H+"models/hubbard_momentum_space/excited_fermi_sea.hpp")])

prop("C16", "Listing of non-vanishing expectation values is complete and exact",
 "For every pair of basis elements, the expectation value of the first element times the conjugate of the second in the Fermi sea is computed exactly, where a three-operator element stands for twice the string plus its contraction c+_q if its last two momenta coincide. The list contains exactly the index pairs with a non-zero value, each once, with that value and in ascending order of the pairs.",
 ["inputs", "configurations"], "every pair of basis elements, every total momentum and every set of filled momenta of chains with 1..5 momenta",
 "A single test compares one complete list for three momenta.",
 [H+"models/hubbard_momentum_space/non_vanishing_expectation_values.hpp", H+"models/hubbard_momentum_space/excited_fermi_sea.hpp"], [("NonVanishingExpectationValues", H+"models/hubbard_momentum_space/non_vanishing_expectation_values.hpp")])

prop("C17", "Momentum-space particle number is the quadratic form of the expectation values",
 "The particle number for coefficients v is the real part of the sum over all listed non-vanishing pairs (l,r) of value times v_l times conjugate(v_r).",
 ["inputs"], "every complex coefficient vector and every list of expectation values for chains with 1..3 momenta (exact arithmetic)",
 "The only test cannot be built here (Blaze missing) and samples one vector.",
 [H+"models/hubbard_momentum_space/particle_number.hpp"], [("ParticleNumber", H+"models/hubbard_momentum_space/particle_number.hpp")])

prop("C18", "Real-space expectation values depend on the periodic separation only",
 "The expectation value <c+_i c_j> of the Fermi sea is symmetric in its sites, depends only on the minimal periodic separation of the sites, equals the filling at zero separation, equals sin(pi*filling*d)/(pi*d) in one dimension, and in two dimensions equals the corresponding half-filling formula. No access leaves the precomputed table for any pair of sites.",
 ["inputs", "configurations"], "chains with 1..8 sites (any filling), square lattices with up to 4x4 sites incl. rectangular, all site pairs",
 "Tests evaluate a few separations on one lattice.",
 [H+"models/hubbard_real_space/expectation_value.hpp"], [("ExpectationValue1D/2D", H+"models/hubbard_real_space/expectation_value.hpp")])

prop("C19", "Site occupation equals the Wick-theorem quadratic form",
 "The four kinds of basis expectation values (1-1, 1-3, 3-1, 3-3 operators) used for the site occupation agree with the Wick expansion of the products of basis operators in the Fermi sea for every site combination. The occupation for any coefficients h is half of the resulting quadratic form, with or without exploiting the inversion symmetry of the lattice.",
 ["inputs", "configurations"], "every real table of expectation values that depends on the separation only, every site combination on chains with 1..4 sites, every complex coefficient vector on chains with 1..3 sites",
 "Tests sample a few combinations of 1-1, 1-3 and 3-1; 3-3 and the sum are never tested.",
 [H+"models/hubbard_real_space/site_occupation.hpp"], [("SiteOccupation", H+"models/hubbard_real_space/site_occupation.hpp")])

prop("C20", "Fermi jump equals its defining sum and does not depend on history",
 "The Fermi jump for coefficients h equals the squared modulus of the Fourier sum of the effective one-particle coefficients (one-particle coefficient plus normal-ordering contributions of the three-particle coefficients). Evaluating an object repeatedly, or evaluating several objects of different lattice sizes in any order, does not change any result and stays within allocated memory.",
 ["inputs", "histories", "configurations"], "every real coefficient vector for chains of 1..3 sites and lattices up to 2x2, sequences of two evaluations with different sizes (exact arithmetic, Fourier factors as constants)",
 "Tests only check the Fourier coefficients of one lattice and never evaluate the jump.",
 [H+"models/hubbard_real_space/fermi_jump/1d.hpp", H+"models/hubbard_real_space/fermi_jump/2d.hpp", H+"models/hubbard_real_space/fermi_jump_no.hpp"], [("FermiJump1D/2D operator()", H+"models/hubbard_real_space/fermi_jump/1d.hpp")])

prop("C21", "Liouvillian matrices are well-formed, Hermitian and match the commutator",
 "Building the kinetic or full Liouvillian matrix in real or momentum space appends every row's entries at strictly ascending in-range columns within the reserved capacity. Its entries equal the coefficients of the commutator of the Hamiltonian with the basis operators for every hopping and interaction strength (at least three sites per direction in real space).",
 ["inputs", "configurations"], "every hopping and interaction (exact arithmetic), chains with 3..5 sites, square lattice 3x3",
 "None of these builders is compiled by the test suite.",
 [H+"models/hubbard_real_space/liouvillian.hpp", H+"models/hubbard_real_space/blaze_sparse.hpp", H+"models/hubbard_momentum_space/liouvillian.hpp", H+"models/hubbard_momentum_space/blaze_sparse.hpp"],
 [("init_kinetic_matrix, init_matrix", H+"models/hubbard_real_space/blaze_sparse.hpp")])

prop("C22", "Triplet lists: sorting and merging preserve every matrix entry",
 "Sorting a list of row/column/value triplets orders it by column and keeps all entries with their values; making the columns of a sorted list unique leaves each column at most once with the sum of all values that were listed for it (entries whose sum is negligible may be dropped), so that the represented row is unchanged; the uniqueness test is exact. Empty lists are handled like any other list.",
 ["inputs"], "lists with up to 4 triplets, arbitrary columns and values",
 "No test exists.",
 [H+"types/triplet.hpp"], [("sort_triplets, make_columns_unique, has_unique_columns", H+"types/triplet.hpp")])

prop("C23", "RK4 step is the fourth-order Taylor propagator of the linear system",
 "One Runge-Kutta step of size h for du/dt = M u replaces u by the sum over k=0..4 of (hM)^k/k! u, for matrices and for matrix-like functions. Consecutive steps on vectors of different dimension do not influence each other.",
 ["inputs", "histories"], "every real matrix of dimension 1..3, every vector and step size (exact arithmetic)",
 "The integrator is not compiled by the test suite.",
 [H+"ode/rk4.hpp", H+"types/blaze/multiply_assign.hpp", H+"types/function_matrix.hpp"], [("RK4::step", H+"ode/rk4.hpp")])

prop("C24", "Number helpers: complex products, zero and equality tests",
 "The helper functions for real and complex numbers return exactly the conjugate, the product a*conj(b) and the sum a*conj(b)+conj(a)*b; the tolerance tests for zero and equality accept exactly those values whose (component-wise) difference is within the stated tolerance and are symmetric.",
 ["inputs"], "all doubles (bit-precise) for the tolerance tests, all real numbers (exact arithmetic) for the products",
 "Untested; boundary values and signs are only covered by quantifying over all doubles.",
 [H+"types/number.hpp", H+"types/number/complex.hpp", H+"types/number/is_equal.hpp", H+"types/number/is_zero.hpp"], [("conjugate, multiply_with_conjugate, add_conjugate_products, IsEqual, IsZero", H+"types/number/complex.hpp")])

prop("C25", "Matrix predicates decide symmetry and hermiticity of every entry",
 "The matrix predicates report a matrix-like object as symmetric (hermitian) exactly if every entry equals its transposed (conjugate transposed) entry, and two function matrices as equal exactly if their dimensions and all their entries agree.",
 ["inputs"], "all real/complex matrices of dimension 1..3",
 "Untested; one differing entry among all positions decides the answer.",
 [H+"types/matrix_check.hpp", H+"types/function_matrix.hpp"], [("is_symmetric, is_hermitian", H+"types/matrix_check.hpp")])

prop("C26", "Parallel loops are schedule independent",
 "The results of every parallel computation (conjugate bases, dispersion, expectation values, site occupation, Fermi jump, matrix-vector products) do not depend on the number of threads (a build without OpenMP counts as one thread), on how iterations are distributed over threads or on their interleaving: concurrently executed iterations never access the same memory unless all only read or the update is atomic.",
 ["schedules"], "2 and 3 threads with every split of the iteration range (symbolic), every interleaving through pairwise non-interference of the threads' access sets, small lattices",
 "A race shows up only under particular schedules; tests run with whatever schedule occurs.",
 [H+"models/hubbard_real_space/basis.hpp", H+"models/hubbard_real_space/expectation_value.hpp", H+"models/hubbard_real_space/site_occupation.hpp", H+"models/hubbard_real_space/fermi_jump/1d.hpp", H+"models/hubbard_momentum_space/basis.hpp", H+"models/hubbard/dispersion.hpp", H+"types/blaze/multiply_assign.hpp"],
 [("#pragma omp parallel for loops", H+"models")])

prop("C27", "Printed forms show every part in order",
 "Streaming an operator, monomial, term or Kronecker/prefactor writes the creator mark, all indices and all factors in the order in which they are stored, so that different objects have different printed forms. Symbolic indices are equal exactly if their texts are.",
 ["inputs"], "operators with 1..3 indices and monomials/terms with up to 3 operators, arbitrary index values",
 "No test checks the printed output of multi-index objects.",
 [H+"algebra/operator/io.hpp", H+"algebra/monomial/io.hpp", H+"algebra/term/io.hpp", H+"tuple.hpp", H+"symbolic/prefactor.hpp"], [("operator<<", H+"algebra/operator/io.hpp")])

prop("C28", "Measurement scheduling triggers once per interval",
 "has_time_interval_passed(t, last, dt, interval): n steps of size dt after the last measurement, the next one is due exactly if time has passed (t > last) and n is at least the interval, despite the rounding errors of accumulated times (up to 3/8 of a step); nothing is due at or before the time of the last measurement, so a loop measures every interval-th step exactly once.",
 ["inputs", "histories"], "all step sizes and intervals (doubles) for one check, bounded sequences",
 "Application code without tests; depends on floating-point time.",
 ["src/hubbard/include/common.hpp"], [("has_time_interval_passed", "src/hubbard/include/common.hpp")])

prop("C31", "Programs record the observable of the integrated state at every measurement",
 "The real-space programs (hubbard_real_1d_rk4, _rk4_jump, _rk4_coefficients, _kinetic_rk4, _kinetic_rk4_coefficients, hubbard_real_2d_rk4_jump) integrate dh/dt = iLh with fourth-order Runge-Kutta steps dt from h = (1, 0, ...), L being the Liouvillian matrix of the requested lattice with the requested couplings, and write one row per measurement: the time and the observable (site occupation, Fermi jump, all coefficients) of the state reached at that time; one row at time 0, then one after every measurement_interval further steps until t_end is reached, and no others. hubbard_momentum_1d_rk4 prints the occupation of the middle momentum before and after eight steps and stores the matrix iL it integrates with. All exit with status 0.",
 ["inputs", "histories"], "all couplings, filling factors, momenta, end times and intervals, for small lattices and few steps",
 "The programs are neither built nor run by the test suite; a mistake in the loop gives plausible curves.",
 ["src/hubbard/hubbard_real_1d_rk4.cpp", "src/hubbard/hubbard_real_1d_rk4_jump.cpp", "src/hubbard/hubbard_real_1d_rk4_coefficients.cpp",
  "src/hubbard/hubbard_real_1d_kinetic_rk4.cpp", "src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp", "src/hubbard/hubbard_real_2d_rk4_jump.cpp",
  "src/hubbard/hubbard_momentum_1d_rk4.cpp", "src/hubbard/include/rk4.hpp", "src/hubbard/include/common.hpp", "src/hubbard/include/vector.hpp"],
 [("main", "src/hubbard/hubbard_real_1d_rk4.cpp"), ("main", "src/hubbard/hubbard_real_2d_rk4_jump.cpp")])

prop("C32", "The reference programs tabulate what they are meant to be compared with",
 "hubbard_real_1d_kinetic_theory writes for every step its time and sum_ij <c_i^+ c_j> h_i conj(h_j) with the half-filled chain's expectation values and h_d = (-i)^d J_d(2t), d the distance to site 0 on the ring: a real number, whatever the values of the Bessel functions. hubbard_trivial writes for step 0 to the last the time, the four coefficients integrated by Runge-Kutta steps of its equations of motion (hopping -J between 0 and its neighbours, U/2 otherwise) and the occupation, the real quadratic form of these coefficients. hubbard_dispersion_1d writes every momentum of the ring with -2 cos(k). All exit with status 0.",
 ["inputs"], "all values of the Bessel functions, all couplings, all coefficient vectors; small systems and few steps",
 "Reference results are what simulations are compared with; nothing tests them.",
 ["src/hubbard/hubbard_real_1d_kinetic_theory.cpp", "src/hubbard/hubbard_trivial.cpp", "src/hubbard/hubbard_dispersion_1d.cpp"],
 [("main", "src/hubbard/hubbard_real_1d_kinetic_theory.cpp"), ("particle_number", "src/hubbard/hubbard_trivial.cpp"), ("main", "src/hubbard/hubbard_dispersion_1d.cpp")])

prop("C29", "Checkpoint and output files keep what they are meant to keep",
 "Every checkpoint goes to two files of its own, numbered from 0: reading the first restores exactly the vector that was stored, whatever the receiving vector held before; the second shows the time. A run that is given a checkpoint starts with the vector stored in it. A matrix file holds the matrix and nothing of an older file. clean_output_file(path, n) ends for every n and leaves exactly the lines up to and including the n-th row of data (blank lines and comments do not count), all of them if there are fewer, each on a line of its own; the former file is kept as path.bak.",
 ["inputs", "histories"], "all vectors and matrices up to 3 elements per direction, all output files of up to three short lines, every number of rows",
 "No application is run by the test suite.",
 ["src/hubbard/include/checkpoint.hpp", "src/hubbard/include/common.hpp"], [("write_checkpoint_file, read_checkpoint_file, clean_output_file", "src/hubbard/include/checkpoint.hpp"), ("write_matrix_file, read_vector_from_checkpoint", "src/hubbard/include/common.hpp")])

prop("C33", "Data lines are read in order; blank lines and comments are skipped",
 "is_skippable_line(s) holds exactly if s is empty, consists of white space, or has '#' as its first other character. next_line(strm) returns the first line that is not skippable, unchanged, reads nothing behind it, and returns an empty string at the end of the input.",
 ["inputs"], "lines of up to 12 arbitrary characters, inputs of up to three lines",
 "Untested; next_line never returned at the end of the input.",
 [H+"io/line.hpp"], [("is_skippable_line, next_line", H+"io/line.hpp")])

prop("C35", "The commutator programs print the commutators they announce",
 "hubbard_commutators_real_space and hubbard_commutators_momentum_space announce the kinetic and the interaction part of the Hamiltonian with all their terms, and below each heading print terms whose sum, Kronecker symbols included, is the commutator of that part with the announced operator (one creator; a creator, and a creator and an annihilator of the other spin): for every assignment of sites to the symbols and between any two occupation number states.",
 ["inputs"], "two and three sites (thorough four), every assignment of sites to the symbols, every pair of states",
 "The programs are not run by the test suite.",
 ["src/hubbard/hubbard_commutators_real_space.cpp", "src/hubbard/hubbard_commutators_momentum_space.cpp"], [("main", "src/hubbard/hubbard_commutators_real_space.cpp"), ("main", "src/hubbard/hubbard_commutators_momentum_space.cpp")])

prop("C36", "Products of vectors and of function matrices are those of linear algebra",
 "types::dot_product of two numbers, two real Blaze vectors or two real Eigen vectors is the sum of the products of their components. types::multiply_assign(M, v) replaces v by M v, for Blaze and Eigen matrices and for function matrices with Blaze and Eigen vectors, whatever products (of whatever dimension) were computed before and with any number of threads.",
 ["inputs", "histories", "schedules"], "real and complex vectors and matrices of dimension 1..3, two products in a row, one to three threads",
 "The Eigen back-end is not compiled by the test suite.",
 [H+"types/dot_product.hpp", H+"types/multiply_assign.hpp", H+"types/blaze/dot_product.hpp", H+"types/blaze/multiply_assign.hpp", H+"types/eigen/dot_product.hpp", H+"types/eigen/multiply_assign.hpp", H+"types/eigen/traits.hpp"],
 [("dot_product", H+"types/eigen/dot_product.hpp"), ("multiply_assign", H+"types/eigen/multiply_assign.hpp")])

prop("C34", "Command line options reach the computation unchanged and are recorded",
 "Every option given on the command line or in a response file has that value in the computation (the command line takes precedence), options left out have their declared default. The header of the output file, all lines of which are comments, and the response file written by a run record the values in use, each option once; a run with that response file has the same options and the same names of its files, which are all derived from the option out. A run whose response file cannot be opened ends without computing, as do runs asked for help or the version. None of this depends on the environment (LOGNAME).",
 ["inputs", "histories", "fault_sequences"], "each pair of options of a program, given in every way, values of two arbitrary characters",
 "No application is run by the test suite.",
 ["src/hubbard/include/cli.hpp", "src/hubbard/include/application.hpp", H+"platform.hpp"], [("parse_command_line_options, read_response_file", "src/hubbard/include/cli.hpp"), ("Application", "src/hubbard/include/application.hpp")])

prop("C30", "Charges of a term are additive and flip under conjugation",
 "The number of creations of a term (creators minus annihilators) and its total spin are the sums of the contributions of its operators: a creator counts plus one (spin: plus one for up, minus one for down) and an annihilator the negative. Both are additive under products and change sign under conjugation.",
 ["inputs"], "all terms with strings of length 0..4, every flag, index and spin",
 "Untested; the total spin did not even compile.",
 [H+"algebra/term/checks.hpp"], [("total_creations, total_spin", H+"algebra/term/checks.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
