"""Writes properties.jsonl (run once per edit; the output is committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB, RS, DM, GT, CO, UT = ("src/ff/ff_lib.py", "src/ff/ff_random_states.py", "src/ff/ff_distance_measures.py",
                           "src/ff/ff_graph_theory.py", "src/ff/ff_combinatorics.py", "src/ff/ff_utils.py")
P = []


def p(id, title, st, over, text, why, files, mech, obs=None):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": obs or ["return values of the public functions named in mechanism"],
                          "hook_needed": None}})


I, H, C = "inputs", "histories", "configurations"

p("C01", "Ladder operators act as fermionic modes on Fock space",
  "For every number of sites n >= 0 jordan_wigner_lowering returns exactly n matrices, the j-th of which empties site j of every occupation-basis vector (site 0 is the most significant bit) with sign (-1)^(number of occupied sites before j) and kills vectors where the site is empty; jordan_wigner_alphas returns the n adjoints followed by the n lowering operators. "
  "Every product of these matrices therefore acts on every basis vector as the corresponding word of creation and annihilation steps, and the canonical anticommutation relations hold exactly.",
  [I, H], "all n, all sites, all basis vectors, all words of ladder operators",
  "The tests check anticommutators for n = 2 and 3 and a few shapes; the property is about every n, site, basis vector and operator word.",
  [LIB], [("jordan_wigner_lowering", LIB), ("jordan_wigner_alphas", LIB)])

p("C02", "Majorana operators and the fixed transformation matrices",
  "jordan_wigner_majoranas returns 2n Hermitian matrices gamma_j = (a_j^dag + a_j)/sqrt2 and gamma_{n+j} = i(a_j^dag - a_j)/sqrt2 (the library's stated order and phase), satisfying {gamma_i, gamma_j} = delta_ij; build_Omega(n) is the unitary taking the ladder operators to them, with Omega Omega^T = S-type structure as documented. "
  "build_reordering_xx_to_xp(n) is the permutation interleaving (x_1..x_n, p_1..p_n) as (x_1, p_1, ...), and build_K(n) is the unitary that turns block-canonical eigenstructure into the standard one, for every n.",
  [I, H], "all n >= 1, all operator words",
  "The tests look at n <= 3 with spot entries; the conventions have to agree with each other for every n.",
  [LIB], [("jordan_wigner_majoranas", LIB), ("build_Omega", LIB), ("build_reordering_xx_to_xp", LIB), ("build_K", LIB)])

p("C03", "Pauli group enumeration",
  "generate_pauli_group(n) returns all 4^n Pauli strings exactly once, as exact 2^n x 2^n matrices in lexicographic order of the letters I, X, Y, Z (the first qubit most significant), for every n >= 0; the verbose form additionally lists each string's name next to its matrix in that order. "
  "Non-integer and negative n are refused with the documented exception types, and pauli_matrices returns X, Y, Z.",
  [I], "all n, all group elements, all basis vectors, invalid arguments",
  "Tests compare a handful of elements for n <= 2.",
  [LIB], [("generate_pauli_group", LIB), ("pauli_matrices", LIB)])

p("C04", "Rotating operator lists and computing their algebra",
  "rotate_operators(C, ops) returns the list whose i-th element is sum_j C[i,j] ops[j], and with Left=True the one using the conjugate transpose of C, for every C and every operator list (real, complex, integer, sparse coefficient patterns), so successive rotations compose as the matrix product and rotating back by a unitary's adjoint restores the list. "
  "compute_algebra_S(ops) returns the matrix of anticommutator coefficients {ops_i, ops_j} = S_ij * identity: the swap matrix for the ladder operators and the identity for Majoranas; it reports (prints) when an anticommutator is not a multiple of the identity and is silent otherwise unless verbose.",
  [I, H], "all coefficient matrices, operator lists and sequences of rotations",
  "Tests rotate by one or two fixed matrices; composition over sequences and mixed dtypes is not reached.",
  [LIB], [("rotate_operators", LIB), ("_perform_rotation", LIB), ("compute_algebra_S", LIB)])

p("C05", "Coefficient-matrix layouts",
  "build_H(n, A, B) is exactly [[-conj A, B], [-conj B, A]] and build_V(n, A, Z) exactly [[-conj Z, A], [-conj A, Z]], with B or Z taken as zero when omitted, for all real, integer or complex blocks. "
  "kitaev_chain(n, mu, t, delta) is build_H of the tridiagonal A (diagonal -mu, neighbours -t) and antisymmetric B (delta above, -delta below the diagonal); random_H_generator returns a Hermitian matrix of that layout with skew B, and B = 0 when fixedN is set.",
  [I, C], "all sizes, dtypes and memory layouts of the blocks, all chain parameters, all seeds",
  "Tests use n = 2 or 3 and mostly check shapes and Hermiticity.",
  [LIB], [("build_H", LIB), ("build_V", LIB), ("kitaev_chain", LIB), ("random_H_generator", LIB)])

p("C06", "Lifting coefficient matrices to operators",
  "build_op(n, R, alphas) is exactly sum_ij R_ij alphas_i^dag alphas_j, and with direct=True exactly sum_ij R_ij alphas_i alphas_j, for every coefficient matrix R and every operator list. "
  "The lift is linear, sends Hermitian coefficients to Hermitian operators, and commutators of lifted quadratic forms are lifts of quadratic forms.",
  [I], "all n, coefficient matrices (real, complex, sparse) and operator lists",
  "Tests lift a few matrices for n <= 3 and check Hermiticity.",
  [LIB], [("build_op", LIB)])

p("C07", "Two-point correlation matrices",
  "compute_2corr_matrix(rho, n, alphas) is exactly the matrix tr(rho a_i a_j), with positive conjugation tr(rho a_i a_j^dag) and with negative conjugation tr(rho a_i^dag a_j); correlation_matrix is the first of these with the number of sites inferred from rho, and compute_cov_matrix is the commutator expectation tr(rho [a_i, a_j]) with n_sites optional. "
  "This holds for every matrix rho and every operator list, so for the ladder operators the anticommutation sum rule tr(rho) S holds.",
  [I, C], "all matrices rho (not only states), all n, all operator lists and conjugation arguments",
  "Tests use the vacuum and a few random states and check symmetry properties only.",
  [LIB], [("compute_2corr_matrix", LIB), ("correlation_matrix", LIB), ("compute_cov_matrix", LIB)])

p("C08", "Gaussian thermal states",
  "generate_gaussian_state(n, H) is the density matrix exp(-Hop)/tr exp(-Hop), where Hop is H itself when H is 2^n x 2^n and the lift of H when H is a 2n x 2n coefficient matrix: Hermitian, trace one, commuting with Hop, with two-point functions given by the Fermi-Dirac form of the coefficient matrix and all higher correlators by Wick's theorem. "
  "Any other size of H is refused by returning 0. (Hamiltonians are meant whose exponential is representable in floating point.)",
  [I, C], "all n, all Hermitian coefficient matrices and operators, optional operator lists",
  "Tests check trace and Hermiticity for n <= 3; not that the state is the right exponential.",
  [LIB], [("generate_gaussian_state", LIB), ("build_op", LIB)])

p("C09", "Symplectic eigendecompositions",
  "For every Hermitian coefficient matrix H, eigh_sp returns U unitary of the form [[s, t*], [t, s*]] and L = U^dag H U = diag(-Sigma, Sigma) with real Sigma; eigv_sp does the same for V-form matrices with U^T V U = L in Y form, eigm_sp returns a real orthogonal O with O^T G O in Y form, and eigm_sp_can a real orthogonal O with O^T G O a direct sum of 2x2 skew blocks. "
  "This includes degenerate spectra, zero modes, the zero matrix, and A = 0 or B = 0.",
  [I], "all n and all properly formed inputs including degenerate and singular ones",
  "Tests use generic random matrices, which never have degenerate or zero modes.",
  [LIB], [("eigh_sp", LIB), ("eigv_sp", LIB), ("eigm_sp", LIB), ("eigm_sp_can", LIB)])

p("C10", "Structural predicates",
  "is_symp(U) is true exactly when U S U^T = S for the swap matrix S (square U of even dimension); check_canonical_form(L) is true exactly for square even-dimensional real skew matrices that vanish outside the 2x2 diagonal blocks; is_matchgate(M) is true exactly for 4x4 matrices whose inner and corner 2x2 determinants agree. "
  "All three answer (not raise) on matrices that fail the condition for any reason.",
  [I], "all matrices of all sizes, real and complex, that do or do not satisfy the condition",
  "Tests try one positive and one negative example per predicate.",
  [LIB], [("is_symp", LIB), ("check_canonical_form", LIB), ("is_matchgate", LIB)])

p("C11", "Random free-fermion rotations act linearly on the modes",
  "For every n and seed, random_FF_rotation returns a unitary W with W^dag alpha_i W = sum_j C_ij alpha_j where C is the orbital rotation returned for the same seed with returnOrb=True; C is unitary and symplectic and its Majorana form is a real rotation with determinant one. "
  "With returnH=True the same seed yields the Hermitian quadratic generator G with exp(-iG) = W.",
  [I, C], "all n, all seeds, the three return modes",
  "Tests check unitarity and shapes for one or two seeds; the relation between the three return modes is not tested.",
  [LIB], [("random_FF_rotation", LIB), ("build_Omega", LIB), ("build_op", LIB)])

p("C12", "Random free-fermion states are the states they claim to be",
  "Every random free-fermion state function returns a normalised state that commutes with fermion parity and is Hermitian and positive for mixed or of unit norm for pure states; all but the rotPDF state are Gaussian (all their correlators obey Wick's theorem), while the rotPDF state is a rotated diagonal state with exactly the returned distribution as its spectrum. A mixed random_FF_state with fixedN commutes with the particle number, the N-particle pure variants have parity (-1)^N or the N they promise, and invalid arguments are refused as documented. "
  "When a generator is returned alongside the state, the state is obtained from it (the thermal state is an exponential of it, the pure state exp(-iH) of the vacuum).",
  [I, C], "all n, all seeds, all flags",
  "Tests check norms and shapes for a few seeds; Gaussianity and the returned generators are not tested.",
  [LIB, RS], [("random_FF_state", LIB), ("random_FF_state_randH", RS), ("random_FF_state_rotPDF", RS),
              ("random_FF_pure_state_W0", RS), ("random_FF_pure_state_WN", RS), ("random_FF_pure_state_CN", RS)])

p("C13", "Seeding makes results reproducible",
  "Calling any random function with a seed gives the same result every time, whatever was drawn or seeded before, for every accepted seed 0..2^32-1; different seeds of continuous-valued functions give different results. "
  "Without a seed, results follow the global generators (NumPy's, and Python's for random graphs): reseeding them and repeating the same calls reproduces them, and successive unseeded calls differ.",
  [H, I], "all sequences of seeded and unseeded calls and reseedings, all seeds",
  "Tests repeat one seeded call twice in a row; order, interleavings and seed 0 are not covered.",
  [LIB, RS, GT, UT], [("random_FF_rotation", LIB), ("random_FF_state", LIB), ("random_H_generator", LIB),
                      ("random_* states", RS), ("generate_random_planar_graph", GT), ("generate_random_bitstring", UT)])

p("C14", "Calls do not disturb their arguments, each other, or global state",
  "No public function modifies the arrays, lists or graphs passed to it (except complete_face, which documents its in-place update); repeating a call gives the same result even after the caller has modified an earlier result in place, and a call sees the current contents of its arguments, not those of an earlier call. "
  "Deterministic functions leave the random generators untouched, and printing helpers leave the global print options as they found them.",
  [H, I], "all functions, all histories of calls with in-place modifications of earlier results",
  "Unit tests use fresh inputs per call and never look at them afterwards.",
  [LIB, RS, DM, GT, CO, UT], [("all public functions", "src/ff/__init__.py")])

p("C15", "Pfaffian and permutation sign",
  "pf(A) equals the signed sum over perfect matchings of the antisymmetric part (A - A^T)/2, zero for odd dimension and one for the empty matrix, for every real, integer or complex matrix; pf(A)^2 = det A and pf(B A B^T) = det(B) pf(A) for skew A (integer matrices: as long as the products fit the signed dtype). "
  "sgn is the parity of the number of inversions of the permutation.",
  [I], "all sizes, entries and dtypes, all permutations",
  "Tests use 2x2 and 4x4 examples and pf^2 = det, which cannot see the sign.",
  [CO], [("pf", CO), ("sgn", CO)])

p("C16", "Hafnian",
  "hf(A) equals the sum over all perfect matchings of the product of the matched entries of the symmetric part (A + A^T)/2 (each matching once; a symmetric A itself, whatever its diagonal), zero for odd dimension and one for the empty matrix, for every real, integer or complex matrix.",
  [I], "all sizes, entries and dtypes",
  "Tests use 2x2 and 4x4 examples.", [CO], [("hf", CO)])

p("C17", "Permanent and determinant",
  "pt(A) is the permanent and dt(A) and dt_eigen(A) the determinant of every square real, integer or complex matrix, including singular, defective and empty ones; they are multilinear in rows and change under row exchange as a permanent and a determinant do. "
  "dt_eigen answers a non-square array by None.",
  [I], "all sizes, entries and dtypes, including singular and defective matrices",
  "Tests use a few small matrices.", [CO], [("pt", CO), ("dt", CO), ("dt_eigen", CO)])

p("C18", "Planar matching counts agree with enumeration",
  "count_perfect_matchings_planar(G) equals, up to an overall phase, the number of perfect matchings (for weighted edges: the sum over matchings of the product of weights) of every non-empty simple planar graph, with any node labels or node and edge order, connected or not, even or odd.",
  [I], "all planar graphs, labels, orders and weights",
  "Tests count on a few small graphs with labels 0..n-1.",
  [GT, CO], [("count_perfect_matchings_planar", GT), ("pfo_algorithm", GT), ("pf", CO)])

p("C19", "Pfaffian orientations",
  "pfo_algorithm(G) returns a matrix over the nodes in order whose nonzero entries are +-1 exactly on the edges, an orientation under which all perfect matchings contribute with the same sign to the Pfaffian, for every connected planar graph with an edge. The product of the signs along every face of networkx's embedding but the outer one (the last of faces()) is -1. "
  "complete_face(pfo, edges) orients only the one remaining edge of a face, so that the product of the signs along the face is -1, in place, and returns the matrix; with no edge remaining it changes nothing and returns None.",
  [I], "all connected planar graphs, node labels and orders, all faces and partial orientations",
  "Tests check shapes and entries on a few graphs.",
  [GT], [("pfo_algorithm", GT), ("complete_face", GT)])

p("C20", "Faces of an embedding and the dual tree",
  "faces(G, emb) returns the faces of the given (or some) planar embedding of a graph with an edge: each directed edge lies on exactly one face, each face follows the rotation system, and their number satisfies Euler's formula; when a face has the nodes of the outer face of networkx's drawing, the last one has. "
  "dual_graph_H(G, F, T) has one node per face and an edge between two faces exactly for each shared edge of G not in T, for every T containing the bridges, and is a tree when T is a spanning tree.",
  [I], "all planar graphs, embeddings, spanning trees and edge orders",
  "Tests check counts on a triangle, a square and a wheel.",
  [GT], [("faces", GT), ("dual_graph_H", GT)])

p("C21", "Matching enumeration and graph helpers",
  "find_perfect_matchings_brute(G) lists every perfect matching of G exactly once and nothing else; count_perfect_matchings(G) is their number for planar and non-planar graphs. "
  "compute_tree_depth is the greatest distance from the first node to a node and refuses what is not a tree with ValueError, generate_random_planar_graph(n, seed) returns a connected planar graph on nodes 0..n-1 (None only if it finds none), and plot_graph_with_edge_weights returns the graph of the nonzero entries of a matrix (off the diagonal when symmetric; directed exactly when it is not symmetric) with weights rounded to four decimals.",
  [I], "all graphs, labels, trees, sizes and seeds",
  "Tests use a few small graphs.",
  [GT], [("find_perfect_matchings_brute", GT), ("count_perfect_matchings", GT), ("compute_tree_depth", GT),
         ("generate_random_planar_graph", GT), ("plot_graph_with_edge_weights", GT)])

p("C22", "Cleaning and formatting keep the values",
  "clean(x, t) returns x rounded to the decimals of the threshold (an integer t = k means 10^-k) with array and list entries of smaller magnitude set to zero, leaving x itself unaltered, as the same kind of container (array to array, list to list, scalar to scalar, a string of decimal digits with at most one point to such a string, other strings unchanged), dropping the imaginary part of arrays and complex scalars exactly when it is below the threshold everywhere; unsupported types raise TypeError. formatted_output writes a number with the requested decimals (the imaginary part only when it is at least 1e-10 in magnitude) and str() of anything else; print_custom prints the cleaned value and restores the print options.",
  [I], "all values, containers, dtypes and thresholds",
  "Tests use a few arrays and only the default threshold.",
  [UT], [("clean", UT), ("formatted_output", UT), ("print_custom", UT), ("_print", UT)])

p("C23", "Partial traces",
  "For a D x D matrix AB with d dividing D, partial_trace_blockTr(AB, d) (also exported as partial_trace_over_2) traces out the second factor, its d x d result having as entry (i, j) the trace of the (i, j) block of size D/d, and partial_trace_diagblocksum(AB, d) (also partial_trace_over_1) traces out the first factor, its d x d result being the sum of the diagonal blocks of size d, for every matrix (not only states); the trace is preserved and product operators factorise. "
  "A d that does not divide D raises AssertionError.",
  [I], "all dimensions, entries and dtypes",
  "Tests use two-qubit states.",
  [UT, "src/ff/__init__.py"], [("partial_trace_blockTr", UT), ("partial_trace_diagblocksum", UT)])

p("C24", "Direct sums and permutation matrices",
  "kron_plus(a, b) is the block-diagonal direct sum of a and b for every pair of matrices, preserving entries and complex type. "
  "permutation_to_matrix(p) is the permutation matrix of p, composition of permutations corresponding to products of matrices; anything that is not a permutation of 0..n-1 gives None.",
  [I], "all shapes, dtypes and permutations",
  "Tests use square blocks and one or two permutations.",
  [UT, LIB], [("kron_plus", UT), ("permutation_to_matrix", LIB)])

p("C25", "Casting to density matrices and distributions",
  "cast_to_density_matrix takes a vector (row, column, flat or list) of unit 2-norm for a wavefunction and returns |v><v|, otherwise one of unit 1-norm for a distribution and returns diag(v) (of a vector of real non-negative entries close to a basis vector, where both norms are almost one, the one closer to one decides), returns a valid density matrix (Hermitian, unit trace, positive) unchanged, and refuses everything else with ValueError or AssertionError. "
  "cast_to_pdf returns the real diagonal of that matrix, so it is non-negative and sums to one; analyze_pdf plots that diagonal and the descending eigenvalues, with the given name as title.",
  [I], "all vectors and matrices, valid and invalid",
  "Tests use a few states.",
  [UT], [("cast_to_density_matrix", UT), ("cast_to_pdf", UT)])

p("C26", "Stabilizer distribution and stabilizer entropy",
  "stabilizer_distribution(rho) has the entry tr(rho P)^2/(2^n tr rho^2) for each Pauli string P in the order of the Pauli group, so it is a probability distribution; SRE(rho, a) is its Renyi entropy of order a minus n log 2 (natural logarithm) for a >= 1/2, zero for pure stabilizer states and for the completely mixed state, and additive on products of pure states.",
  [I], "all pure and mixed states, all n, all orders",
  "Tests use a few stabilizer and T states.",
  [DM], [("stabilizer_distribution", DM), ("SRE", DM)])

p("C27", "Renyi and linear entropies",
  "renyi_entropy(p, a) equals log(sum p^a)/(1-a), with the Hartley, Shannon and min-entropy as the cases a = 0, 1 and infinity, with the natural logarithm, for every distribution including zero entries (wavefunctions and density matrices stand for their diagonal distributions); it is invariant under permutation, additive on products and non-increasing in a. "
  "linear_entropy(p) is 1 - sum p^2 when the length of p is a perfect square and raises AssertionError otherwise.",
  [I], "all distributions and orders",
  "Tests use uniform and deterministic distributions.",
  [DM], [("renyi_entropy", DM), ("linear_entropy", DM)])

p("C28", "Classical distances and divergences",
  "total_variation_distance, bhattacharyya_coeff, relative_entropy and jensen_shannon_divergence compute half the l1 distance, sum sqrt(pq), sum p log(p/q) (infinite when the support of p is not inside that of q) and the symmetrised divergence to the mean, for every pair of distributions including zeros, with the natural logarithm; wavefunctions and density matrices stand for their diagonal distributions, and what is not a state or distribution is refused.",
  [I], "all pairs of distributions, including disjoint and partially overlapping supports",
  "Tests use a few distributions of size 2 to 4.",
  [DM], [("total_variation_distance", DM), ("bhattacharyya_coeff", DM), ("relative_entropy", DM), ("jensen_shannon_divergence", DM)])

p("C29", "Trace distance",
  "trace_distance(A, B) is half the sum of the singular values of the difference of the two states A and B (given as density matrices, wavefunctions or distributions): symmetric, between 0 and 1, zero exactly for equal states, obeying the triangle inequality, equal to sqrt(1 - |<u|v>|^2) for pure states and to the total variation distance for diagonal ones. Arguments that are not states are refused.",
  [I], "all pairs of matrices or states given as matrices or vectors",
  "Tests use a few qubit states.", [DM], [("trace_distance", DM)])

p("C30", "Covariance distribution and fermionic anti-flatness",
  "With the two-point covariance M_ij = -i <g_i g_j> (i != j) of the Majorana operators g = sqrt2 gamma, cov_distribution(rho) returns the squares of the non-zero singular values of M (above 1e-10), one for each pair, and FAF(rho, k) = n - (1/2) tr((M^T M)^k) = n - sum of their k-th powers for k >= 1. "
  "So FAF vanishes on pure Gaussian states for every k, is n on the completely mixed state, and both are unchanged by Gaussian rotations of the state.",
  [I], "all pure and mixed states, all n and k",
  "Tests use the vacuum and a few random states.", [DM], [("cov_distribution", DM), ("FAF", DM)])

p("C31", "Interpolating paths between states",
  "get_orthogonal_vectors(v) returns an orthonormal basis as columns, the first of which is v/|v| (the standard basis for the zero vector, an empty array below two dimensions). "
  "build_linear_path(w, v) is the normalised straight line and build_unitary_path(w, v) the orbit exp(-iHt) w of one Hermitian H, both starting at w/|w| at t = 0, ending at v/|v| at t = 1 and of unit norm in between, for every pair of non-zero vectors of dimension >= 2 including orthogonal, parallel and opposite ones (only the vanishing midpoint of the straight line between opposite vectors is excluded); the paths do not change when the vectors they were built from or have returned are overwritten.",
  [I], "all pairs of unit vectors, all dimensions, all times",
  "Tests use random pairs, never special ones.", [RS], [("get_orthogonal_vectors", RS), ("build_unitary_path", RS), ("build_linear_path", RS)])

p("C32", "Random qubit and stabilizer states, random bitstrings",
  "random_qubit_pure_state and random_qubit_state return normalised pure and valid mixed states of n qubits; random_CHP_state returns a stabilizer state, having expectation +-1 for exactly 2^n Pauli strings and 0 for all others; generate_random_bitstring(n, k) returns n bits with exactly k ones, or None when k < 0 or k > n. "
  "Every stabilizer state of n qubits and every bit string of the weight can occur; sizes that are not integers raise TypeError and non-positive ones ValueError.",
  [I, C], "all n, k and seeds, invalid arguments",
  "Tests check norms for a few n.", [RS, UT], [("random_qubit_state", RS), ("random_qubit_pure_state", RS), ("random_CHP_state", RS), ("generate_random_bitstring", UT)])

p("C33", "Random results follow the documented distributions",
  "Random results are distributed as documented, with and without seeds (over random seeds), successive draws being independent. random_FF_rotation is Haar distributed on SO(2n) (its orbital matrix in Majorana form); random_qubit_pure_state is a Haar random state and random_qubit_state a Haar-rotated spectrum drawn uniformly from the simplex; "
  "the spectrum of random_FF_state_rotPDF is uniform on the simplex; random_FF_pure_state_W0, WN, CN and random_FF_state(pure=True) are Haar-rotated occupation states, so that their covariance matrices have the moments of R G R^T, with both parities of a random particle number occurring; random_CHP_state is uniform over the stabilizer states and generate_random_bitstring uniform over the strings of the given weight.",
  [I], "the distribution of results over all draws and seeds",
  "A test sees single draws, never the distribution.",
  [LIB, RS, UT], [("random_FF_rotation", LIB), ("random_qubit_pure_state", RS), ("random_qubit_state", RS), ("random_FF_state_rotPDF", RS), ("random_FF_pure_state_W0", RS), ("random_FF_pure_state_WN", RS), ("random_FF_pure_state_CN", RS), ("random_CHP_state", RS), ("generate_random_bitstring", UT)])

p("C34", "Normal modes across the library",
  "For every Hermitian coefficient matrix H of a quadratic Hamiltonian (H form), [L, U] = eigh_sp(H) are the normal modes seen by every other part of the library. With the operators b = rotate_operators(U^dag, alphas), b comes in adjoint pairs with the algebra of compute_algebra_S(alphas); build_op(n, H, alphas) = build_op(n, L, b) = K; b_{k+n} changes the energy of K by -2 sigma_k (L = diag(sigma, -sigma)), and the spectrum of K is all sums of +-sigma_k. "
  "The thermal state generate_gaussian_state(n, H) is normalised, commutes with K, has energy - sum sigma_k tanh sigma_k and in the modes only Fermi-Dirac occupations, no other correlations (compute_2corr_matrix in all its forms, compute_cov_matrix); its cov_distribution is tanh^2 sigma_k and FAF follows. eigv_sp, eigm_sp and eigm_sp_can of the same Hamiltonian have the same energies, and turning H into C^dag H C by the orbital matrix C of random_FF_rotation turns operator and thermal state by the rotation itself, leaving the energies unchanged.",
  [I, H], "all Hamiltonians (degenerate, gapless, pairing only, number conserving, real and complex), all n, all rotations",
  "Tests look at one function at a time, for random or trivial Hamiltonians; the conventions of a dozen functions have to agree for every Hamiltonian.",
  [LIB, RS, DM], [("eigh_sp", LIB), ("eigv_sp", LIB), ("eigm_sp", LIB), ("eigm_sp_can", LIB), ("rotate_operators", LIB), ("compute_algebra_S", LIB), ("build_op", LIB), ("generate_gaussian_state", LIB), ("compute_2corr_matrix", LIB), ("compute_cov_matrix", LIB), ("random_FF_rotation", LIB), ("cov_distribution", DM), ("FAF", DM)])

p("C35", "Wick's theorem across the library",
  "Every Gaussian state the library produces (generate_gaussian_state of a quadratic Hamiltonian, random_FF_state in all its forms, random_FF_state_randH, random_FF_pure_state_W0, WN and CN) and every other Gaussian state given to it is fixed by its two-point functions. For each index set I in any order, tr(rho gamma_I) is pf of the rows and columns I of compute_2corr_matrix over the Majorana operators (pf(D_I) / 2^(|I|/2) with D = compute_cov_matrix over them), "
  "tr(rho a_I) is pf of those of compute_2corr_matrix or correlation_matrix for ladder operators I of different sites, and correlations of odd order vanish. For two Gaussian states, tr(rho sigma)^2 = dt((1 + D_rho D_sigma) / 2), and the same by dt_eigen; with rho = sigma this is the purity.",
  [I, H], "all Gaussian states (mixed, pure, thermal, random, all particle numbers), all index sets, all pairs of states, all n",
  "Tests evaluate pf, dt and the correlation matrices apart; that they fit together for every state and index set is never asked.",
  [LIB, RS, CO], [("pf", CO), ("dt", CO), ("dt_eigen", CO), ("compute_2corr_matrix", LIB), ("compute_cov_matrix", LIB), ("correlation_matrix", LIB), ("jordan_wigner_majoranas", LIB), ("generate_gaussian_state", LIB), ("random_FF_state", LIB), ("random_FF_state_randH", RS), ("random_FF_pure_state_W0", RS), ("random_FF_pure_state_WN", RS), ("random_FF_pure_state_CN", RS)])

p("C36", "Drawings show the graph they were made from",
  "The figure on show when plot_planar_embedding or plot_graph_with_edge_weights calls show() can be read back as its input: one dot per node with that node's name on it, one line per edge between the right dots and nothing else. plot_planar_embedding(G, pfo) draws no two edges of a planar graph across each other and adds one red arrow for each oriented edge {L, R}, L < R, from L to R where pfo[L, R] < 0 and from R to L where it is positive, none where it is zero or no pfo is given. "
  "plot_graph_with_edge_weights(A, matching) draws lines for a symmetric A and, for another one, arrows i -> j for the non-zero A[i, j] (loops included), each weight rounded to four decimals written once, on its line or on the side its arrow bends to, and the edges of the matching (and only these) in red. A title that is given is shown.",
  [I], "all planar graphs, node labels and orders, orientations; all real matrices and weighted graphs, matchings and titles",
  "Tests only check that plotting raises nothing.",
  [GT], [("plot_planar_embedding", GT), ("plot_graph_with_edge_weights", GT), ("_draw_labeled_graph", GT), ("_draw_labeled_multigraph", GT)],
  ["the marks of the matplotlib figure (Agg) at the call of show()"])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
