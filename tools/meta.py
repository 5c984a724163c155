"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/meta.py)."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "lie_nn/_src/"
TECH = "bounded exhaustive model checking of the implementation against a reference model"

P = []


def prop(id, title, statement, over, qtext, tests, files, mech, note, tech=TECH, state=(), observe=()):
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests,
            files=[S + f for f in files], mech=[(n, S + w) for n, w in mech], note=note, tech=tech,
            state=[(n, m, S + w) for n, m, w in state], observe=list(observe),
        )
    )


IR = ["irreps/su2.py", "irreps/su2_real.py", "irreps/so3_real.py", "irreps/o3_real.py",
      "irreps/sl2c.py", "irreps/so13.py", "irreps/sun.py", "irreps/z2.py"]

prop(
    "C01", "Tabulated irreps of one group satisfy the same group relations",
    "For every label of every tabulated group (SU(2), its real form, SO(3), O(3), SL(2,C), SO(1,3), SU(N), Z2), "
    "the generators have the advertised shapes and satisfy [X_i, X_j] = A_ijk X_k, where the structure constants A are real, antisymmetric, satisfy the Jacobi identity, have the Killing form of the named group, and are identical for all the labels of that group. "
    "The discrete generators satisfy the relations of the group: the inversion of O(3) and the generator of Z2 square to the identity and commute with the continuous generators.",
    ["inputs"], "every label of every group, not only the first seven",
    "irrep_test.py checks the first seven labels of each group against their own structure constants; it does not compare labels, check Jacobi, the real form, or the discrete generators.",
    IR, [("generators and structure constants", "irreps/su2.py:78"), ("SU(N) ladder operators", "irreps/sun.py:180"),
         ("real form of SO(1,3)", "irreps/so13.py:65")],
    "Complete over all labels up to the bound listed in the evidence (e.g. SU(2) to j=24, SU(3) to dimension 48); nothing is said about larger labels. Trusts numpy and the independent linear algebra of mc/ref.py.",
)
prop(
    "C02", "A label determines its irrep: dimension, character, inequivalence",
    "Every label gives an irreducible representation whose dimension and whose character at every group element are those of the irrep with this highest weight (and parity). "
    "Two labels are equal exactly when their representations are equivalent, and a label is reported trivial (or scalar) exactly when the representation is (or is up to parity). "
    "Irreps of the compact groups are given by unitary matrices, and those of groups advertised as real by real matrices.",
    ["inputs"], "all labels, all pairs of labels of equal dimension, all group elements",
    "The tests never compare a representation with its label: a wrong, reducible or permuted family of irreps with consistent commutators passes.",
    IR, [("dimension formulas", "irreps/sun.py:30"), ("generators", "irreps/sl2c.py:60"), ("is_trivial", "rep.py:64")],
    "Characters are compared at every basis direction and three generic group elements with exact integer weight multiplicities; distinct irreps within the bound have distinct characters there. Commutants by singular values (tolerance 1e-7).",
)
prop(
    "C03", "Labels are totally ordered, enumerated once, and round-trip from text",
    "Enumerating the irreps of a group yields pairwise different labels in strictly increasing order, starts with the trivial representation, and reaches every label; the order of labels is a strict total order compatible with equality and hashing, and a label equals no label of another group nor anything that is no label. "
    "Reading a label, a multiple, or a direct sum from its textual form gives exactly the irreps written, with their multiplicities and in their order.",
    ["inputs"], "all prefixes of the enumerations, all pairs and triples of labels, all strings in the grammar up to a length",
    "test_order looks at ten consecutive labels, and one string is parsed in the whole test suite.",
    IR + ["irrep.py", "reduced_rep.py", "irreps/son.py", "irreps/spn.py"],
    [("iterator / __lt__", "irreps/o3_real.py:48"), ("from_string", "reduced_rep.py:17"), ("create_trivial", "irrep.py:35")],
    "Complete over the enumerated prefix of each group and over all strings of the grammar within the bound.",
)
prop(
    "C04", "The product of two irreps lists exactly the irreps it contains",
    "The product of any two labels lists, without repetition, exactly the irreps contained in the tensor product of their representations, and the number of Clebsch-Gordan solutions for each is its multiplicity, so that dimensions add up to the product of the dimensions. "
    "The product is commutative, associative as a multiset with multiplicities, and has the trivial irrep as its unit.",
    ["inputs"], "all pairs of labels, including those with multiplicities larger than one",
    "test_selection_rule covers four labels per group, without multiplicities and without completeness.",
    IR, [("__mul__ / mul_rep", "irreps/sun.py:130"), ("selection rule of SL(2,C)", "irreps/sl2c.py:29")],
    "Complete over all pairs of labels in the bound, against exact integer Clebsch-Gordan series obtained by peeling off highest weights; the multiplicity from the coefficients is checked on smaller pairs.",
)
prop(
    "C05", "Tabulated Clebsch-Gordan coefficients are equivariant and complete",
    "For any three labels of a group, each tabulated Clebsch-Gordan solution intertwines the tensor product of the first two irreps with the third under all continuous and discrete generators, and the solutions span all such intertwiners without redundancy. "
    "The solutions are isometric and mutually orthogonal (orthogonal and normalized for the real form of SU(2)), and over all the outputs they form an invertible change of basis of the whole product; asking for an irrep that is absent gives an empty set of solutions.",
    ["inputs"], "all triplets of labels, present or absent, multiplicity one or larger",
    "The tests check the intertwining relation for triplets of the first four labels; not the span, orthogonality, normalization or multiplicities.",
    IR + ["clebsch_gordan.py"],
    [("closed form for SU(2)", "irreps/su2.py:147"), ("change to the real basis", "irreps/so3_real.py:37"),
     ("9j-like contraction for SL(2,C)", "irreps/sl2c.py:122"), ("highest weight and lowering for SU(N)", "irreps/sun.py:236")],
    "Complete over all triplets within the bound. The span is compared with an independently computed intertwiner space.",
)
prop(
    "C06", "Generic intertwiner solver returns exactly the space of intertwiners",
    "For any two representations of a group in any well-conditioned basis, including the empty representation of dimension zero, the inferred changes of basis are linearly independent and span exactly the linear maps Q with Q rho_1 = rho_2 Q, for continuous and discrete generators, and their number is the dimension of that space (zero when there is none). For representations that are close to equivalent the answer is exact or refused, never a wrong map. "
    "The generic Clebsch-Gordan coefficients are these maps for the product of two representations, indexed as solution, first factor, second factor, output; they agree with the tabulated ones when those exist, also when the irreps of the triplet are of different classes.",
    ["inputs"], "all pairs/triples of representations from a palette (irreps, sums with multiplicities, finite groups, products) in real and complex bases",
    "Tests compare the generic and tabulated coefficients on the first four labels in one basis.",
    ["infer_change_of_basis.py", "clebsch_gordan.py", "util.py"],
    [("linear system and null space", "util.py:342"), ("reshape of the solutions", "clebsch_gordan.py:10")],
    "Complete over the palette; bases have condition number at most 8 (the solver uses an absolute threshold).",
)
prop(
    "C07", "Tensor product is the Kronecker product, whatever the form of the operands",
    "The tensor product of two representations, given in any of the available forms (generic, irrep, multiple of an irrep, sum of irreps with or without a change of basis), is exactly the Kronecker product with the first operand as the slow index: X1 (x) 1 + 1 (x) X2 for continuous and H1 (x) H2 for discrete generators. "
    "When both operands are decomposed, the result carries its decomposition into irreps with the right multiplicities.",
    ["inputs", "configurations"], "all ordered pairs of operand forms over a palette of representations and bases",
    "tensor_product_test.py compares one shape of sums for four labels of five groups, with the continuous generators only.",
    ["tensor_product.py", "clebsch_gordan.py", "reduced_rep.py"],
    [("dispatch over operand kinds", "tensor_product.py:12"), ("block assembly of the change of basis", "tensor_product.py:70")],
    "Complete over the palette of forms and groups listed in the evidence.",
)
prop(
    "C08", "Tensor powers",
    "The n-th tensor power of a representation is, for every n >= 0 and every form of representation, the tensor product of n copies of it, the power zero being the trivial representation of the same group with the same number of generators.",
    ["inputs"], "all n up to a bound, all forms of representation",
    "Tests only look at the type of the square.",
    ["tensor_product.py", "rep.py", "reduced_rep.py"],
    [("square and multiply", "tensor_product.py:122"), ("create_trivial", "rep.py:122")],
    "Complete for exponents up to the bound over the palette; sizes limited to dimension 243.",
)
prop(
    "C09", "Direct sums and multiplicities",
    "A direct sum, a multiple (including zero times) or a sum of multiples of representations acts block by block in the order given, with or without a change of basis, keeps the group of its terms, and reports the matching dimension, structure constants and trivial representation. "
    "Sums of representations of different groups are rejected.",
    ["inputs", "configurations"], "all sums of up to three terms over a palette, multiplicities from zero, any basis",
    "No test looks at the matrices of a direct sum or of a multiplicity.",
    ["direct_sum.py", "reduced_rep.py", "util.py"],
    [("direct_sum", "direct_sum.py:9"), ("MulIrrep / ReducedRep generators", "reduced_rep.py:36")],
    "Complete over the palette.",
)
prop(
    "C10", "Changes of basis, of algebra basis, and conjugation are functorial",
    "A change of basis by Q replaces every continuous and discrete generator M by Q M Q^-1, composes (first Q1 then Q2 is Q2 Q1), is undone by the inverse, and keeps the structure constants and, for decomposed representations, the decomposition. "
    "Whether a representation is trivial does not depend on its basis. "
    "A change of the basis of the Lie algebra transforms generators and structure constants together so that the relations still hold, and conjugation conjugates every generator and is an involution.",
    ["inputs", "histories"], "all sequences of such operations up to a depth, over all forms of representations",
    "One test transforms the algebra of one irrep by one matrix.",
    ["change_basis.py", "change_algebra.py", "conjugate.py"],
    [("change_basis dispatch", "change_basis.py:9"), ("change_algebra", "change_algebra.py:6")],
    "All operation sequences up to the bounded depth, each state compared with the dense model.",
)
prop(
    "C11", "The exponential map gives group elements",
    "Evaluating a representation at coordinates returns exp(sum of coordinates times continuous generators) multiplied on the left by the discrete generators raised to the given integer powers, the first discrete generator leftmost. "
    "It respects the group: parameters that multiply to one another in one irrep do so in all of them, negative powers are inverses, and for the compact groups full turns give plus or minus one as the label dictates; the JAX version agrees with the NumPy one, whatever the form of the representation and the type of its discrete generators.",
    ["inputs"], "all labels in a bound, a grid of coordinates, all integer powers in a window",
    "Only one test evaluates the exponential map, at one point, for SO(3).",
    ["rep.py", "jax_utils.py"],
    [("exp_map", "rep.py:44"), ("matrix_power in jax", "jax_utils.py:15")],
    "Complete over labels x grid x powers within the bound; JAX in single precision (tolerance 1e-4), non-negative powers.",
)
prop(
    "C12", "Representations of a product of groups",
    "The product of representations of two or three groups is a representation of the direct product: structure constants are block diagonal in the order of the factors, each group acts on its own tensor factor, and generators of different groups commute. "
    "For tabulated irreps the product is again tabulated: its fusion rule and Clebsch-Gordan coefficients are those of the factors combined, complete and equivariant, its order and equality are lexicographic, and it can be multiplied, summed, and reduced like any irrep.",
    ["inputs", "configurations"], "all pairs and triples of factors over a palette of groups, tabulated or generic",
    "group_product_test.py multiplies three pairs of irreps and checks the commutators.",
    ["group_product.py"],
    [("generic product", "group_product.py:20"), ("tabulated product", "group_product.py:60")],
    "Complete over the palette of factors (with and without Lie algebra, with and without discrete generators).",
)
prop(
    "C13", "Reduction into irreps reproduces the representation",
    "Reducing any completely reducible representation returns a decomposition into irreducible, pairwise inequivalent blocks with their multiplicities whose assembled generators, continuous and discrete, equal the original ones; the multiset of blocks does not depend on the random choices of the algorithm. "
    "Reducing an already decomposed representation leaves it unchanged.",
    ["inputs", "schedules"], "a palette of representations (with multiplicities, real and complex bases, finite groups) times the enumerated random streams",
    "reduce_test.py reduces a single representation, without multiplicities, and is itself unreliable.",
    ["reduce.py", "util.py"],
    [("commutant splitting", "util.py:558"), ("assembly", "reduce.py:23")],
    "Every case is executed under each of the enumerated seeds of the random stream; an eigenvalue coincidence outside them is not excluded. Real representations without real type (e.g. planar rotations) are reduced over the complex numbers.",
)
prop(
    "C14", "Irreducibility test",
    "A representation is reported irreducible exactly when the only matrices commuting with all its continuous and discrete generators are the multiples of the identity, in whatever well-conditioned basis it is given.",
    ["inputs"], "a palette of representations that are irreducible or not, in all bases",
    "Nothing in the tests calls it.",
    ["is_irreducible.py", "util.py"], [("commutant dimension", "util.py:587")],
    "Complete over the palette; representations that are not completely reducible are included only when their commutant is larger than the scalars.",
)
prop(
    "C15", "Reality and unitarity are decided correctly",
    "A representation is reported self-conjugate exactly when it is equivalent to its conjugate, and making it explicitly real returns an equivalent representation by real matrices when one exists, and is refused otherwise (complex or quaternionic type). "
    "It is reported unitary exactly when all continuous generators are anti-hermitian and all discrete generators unitary.",
    ["inputs"], "all irreps in a bound and finite groups of real, complex and quaternionic type, in unitary and non-unitary bases",
    "Nothing in the tests calls these functions directly.",
    ["real.py", "properties.py"], [("is_real / make_explicitly_real", "real.py:7"), ("is_unitary", "properties.py:6")],
    "Complete over the palette. Making real is claimed for irreps given in a unitary basis.",
)
prop(
    "C16", "Tensor bases with prescribed index symmetries are exact",
    "For every signed permutation symmetry of the indices and every choice of representations, the basis of the tensors with that symmetry consists of exactly as many independent tensors as that space has dimensions (possibly none), each has the symmetry, and the basis transforms under all continuous and discrete generators as the announced sum of irreps. "
    "A plain list of representations gives the basis of the whole product, and inconsistent formulas or assignments of representations are rejected.",
    ["inputs"], "all subgroups of signed permutations of up to four indices, written by all small generating formulas, times a palette of representations",
    "One test reduces the symmetric cube of one representation and compares one group element.",
    ["reduced_tensor_product.py", "util.py"],
    [("group from a formula", "reduced_tensor_product.py:225"), ("permutation basis", "reduced_tensor_product.py:418"),
     ("intersection", "reduced_tensor_product.py:335")],
    "Complete over all signed subgroups for up to three indices (and all formulas with up to two generators for four) and the palette. The dimension is computed exactly by counting orbits.",
)
prop(
    "C17", "Symmetric powers are exact",
    "The basis of the symmetric tensors of order n over a representation in any form has exactly binomial(d+n-1, n) independent, fully symmetric tensors, and transforms as the announced sum of irreps, whose multiplicities are those of the n-th symmetric power.",
    ["inputs"], "all orders up to a bound, sums of irreps with multiplicities in real and complex bases, all tabulated groups",
    "One representation of SO(3), order three, one group element, no count.",
    ["reduced_tensor_product.py"], [("pairwise greedy reduction", "reduced_tensor_product.py:160")],
    "Complete over the palette; multiplicities compared with exact symmetric-power characters for the compact connected groups.",
)
prop(
    "C18", "Permutation arithmetic and closure of index formulas",
    "Composition, inverse, sign, cycle decomposition and numbering of permutations satisfy the group laws and the numbering is a bijection; generating a set yields the smallest group containing it. "
    "An index formula denotes exactly the smallest group of signed permutations containing the stated ones, whatever the order, repetition or naming of its terms, and malformed formulas are rejected.",
    ["inputs", "programs"], "all permutations up to order five or six, all pairs, all generating sets, all formulas up to four indices",
    "No test covers this code.",
    ["discrete_groups/perm.py", "reduced_tensor_product.py", "util.py"],
    [("perm arithmetic", "discrete_groups/perm.py:8"), ("formula closure", "reduced_tensor_product.py:225")],
    "Complete: the state space of closures is explored by breadth-first search up to the bound.",
)
prop(
    "C19", "Rounding to square roots of rationals is the best approximation",
    "The rational with bounded denominator closest to a number is found exactly, and a floating-point number is turned into an integer ratio within its precision. "
    "Rounding to square roots of rationals leaves every representable value unchanged, never moves a number by more than 1e-7, acts entry by entry on real and imaginary parts with the right sign, is idempotent, and its symbolic form has the same value.",
    ["inputs"], "all fractions with small terms, all square roots of small rationals, a fine grid of reals, real and complex, all array shapes",
    "Random ratios are compared with the standard library, for positive and negative moderate values only.",
    ["util.py"], [("limit_denominator", "util.py:57"), ("round_to_sqrt_rational", "util.py:84")],
    "Complete over the enumerated fractions, bounds and grids; compared with exact rational arithmetic.",
)
prop(
    "C20", "Linear algebra kernels return exactly the right subspaces",
    "For every real or complex matrix, the null space, the successive null space, the orthonormalization, the completion to a basis, the intersection of two spans, and the intertwiner system return bases of exactly the right subspace: right dimension, independent, inside, orthonormal where promised. "
    "Rank deficiency, empty inputs, zero rows, repeated rows and complex entries are no exceptions; the successive null space may come out smaller than the announced dimension, and a larger one is refused.",
    ["inputs"], "all matrices of small shapes with entries in a small alphabet including imaginary units",
    "Two random matrices in the tests.",
    ["util.py"], [("nullspace", "util.py:266"), ("gram_schmidt", "util.py:214"), ("basis_intersection", "util.py:394")],
    "Complete over all matrices with entries in the alphabet for the listed shapes; oracle by exact rational (Gaussian integer) elimination.",
)
prop(
    "C21", "Structure constants are inferred correctly and wrong ones are refused",
    "From any linearly independent set of matrices closed under commutators over the reals, the inferred structure constants are the ones of that set, and nothing is returned when the set is not closed. "
    "The consistency checks of a representation, of its structure constants, and of a triplet accept exactly the data that satisfies the relations: changing any one entry of a structure constant or of a generator is detected.",
    ["inputs", "fault_sequences"], "all irreps in a palette and all single-entry perturbations of their data; all small sets of elementary matrices",
    "No test checks that anything is refused.",
    ["util.py", "rep.py"], [("infer_algebra_from_generators", "util.py:454"), ("check_algebra_vs_generators", "util.py:444")],
    "All single-entry faults on the palette, all pairs/triples of elementary matrices.",
)
prop(
    "C22", "Finite group representations",
    "The natural, standard and trivial representations of the symmetric group on n points satisfy the defining relations of its generators for every n, generate exactly n! group elements (one for the trivial one), and the natural one is the sum of the trivial and the irreducible standard one. "
    "The regular representation of any group given by its multiplication table multiplies as the table says and contains each irrep as often as its dimension.",
    ["inputs"], "all n up to a bound and all relabelled multiplication tables of small groups",
    "No test covers them.",
    ["finite.py", "util.py"], [("generators of S(n)", "finite.py:40"), ("regular_representation", "util.py:592")],
    "Group elements generated exhaustively (breadth-first over the Cayley graph) up to n = 6; relations up to n = 10.",
)
prop(
    "C23", "Operations are pure: results never depend on the history",
    "No operation modifies its arguments, and the result of an operation does not depend on which operations were performed before it, on their order, nor on what was done to their results: overwriting an array that was returned earlier never changes what a later call with newly built arguments, or a later method of a tabulated irrep, returns, and replacing the attributes of a representation that was used before (multiplicity, irreps, generators, change of basis) gives what the same values give in a new object. Earlier results stay as they were, and the settings and the random state of numpy are left alone (random decompositions draw from it, but never set it).",
    ["histories"], "all sequences of calls up to a depth from an alphabet covering the whole interface, with results overwritten in between",
    "Each test uses fresh objects once; nothing repeats a call after its result was modified.",
    ["reduced_tensor_product.py", "rep.py", "reduced_rep.py", "util.py", "irreps/sun.py"],
    [("caches of index symmetries", "reduced_tensor_product.py:224"), ("no shared buffers", "util.py:190")],
    "Every history up to the bound starts in a fresh forked process of the imported library.",
    tech="explicit-state exploration of all call histories on the implementation (fresh process per history), differential oracle",
    state=[("memoized permutation bases", "module-level caches shared by all calls", "reduced_tensor_product.py:412")],
)
prop(
    "C24", "Expressions of representations mean what they say",
    "Any composition of the operations on representations (sums, products, powers, conjugation, changes of basis, generic or decomposed form) denotes the representation obtained by performing the same operations on dense matrices; the intermediate forms chosen along the way do not matter. "
    "Evaluating the result at group elements, and the structure constants, dimension and trivial representation of the result, agree as well.",
    ["programs"], "all expressions up to a depth over an alphabet of operations and leaves",
    "Each operation is tested at most alone.",
    ["tensor_product.py", "change_basis.py", "direct_sum.py", "reduced_rep.py", "conjugate.py", "rep.py"],
    [("multiple dispatch between forms", "tensor_product.py:12")],
    "Breadth-first over all expressions within depth and dimension bounds; each state is rebuilt on the implementation and compared with the dense model.",
    tech="explicit-state exploration of expression programs on the implementation against a dense reference model",
)
prop(
    "C25", "Gelfand-Tsetlin patterns and ladder operators of SU(N)",
    "For every SU(N) label, enumerating its patterns yields each valid pattern once, as many as the dimension; numbering and unnumbering are inverse to each other and follow that enumeration. "
    "Weights of patterns give the weight multiplicities of the irrep, and the raising and lowering matrices are transposes of each other, shift weights by simple roots, and satisfy the Serre relations of the Lie algebra.",
    ["inputs"], "all labels up to N = 6 in a bound, all patterns, all indices",
    "Three asserts on three labels at import time.",
    ["irreps/sun.py"], [("S_to_Ms / index_to_M / M_to_index", "irreps/sun.py:55"), ("ladder coefficients", "irreps/sun.py:146")],
    "Complete over all labels within the bound; weight multiplicities by exact tableau counting.",
)
prop(
    "C26", "Root systems and dimensions of the classical groups",
    "For every classical series and rank, the roots, fundamental weights, Weyl vector, Cartan matrix and Coxeter number are those of the named Lie algebra, related to each other as a root system demands. "
    "The dimension of an orthogonal or symplectic label (below 2^40) is the integer given by Weyl's formula for its highest weight.",
    ["inputs"], "all ranks up to a bound and all labels with small entries",
    "No test covers them.",
    ["lie_algebra_utils.py", "irreps/son.py", "irreps/spn.py"],
    [("RootsWeights", "lie_algebra_utils.py:4"), ("weyl_dim", "lie_algebra_utils.py:108")],
    "Complete over ranks 2 (3 for D) to 8 and labels within the bound; roots generated independently by reflections, dimensions by exact rational arithmetic.",
)
prop(
    "C27", "Array helpers follow their definition for all shapes and dtypes",
    "The batched map, block and direct sums, Kronecker products, commutators, clustering of equal rows and grouping of eigenvectors equal their loop definition for every shape (including empty ones), axis and dtype, the sign of a permutation is that of its inversions, and clusters that are not clearly separated are refused.",
    ["inputs"], "all small shapes, all axis combinations, real and complex dtypes, all small point sets and permutations",
    "No test covers them.",
    ["util.py"], [("vmap", "util.py:120"), ("direct_sum", "util.py:184"), ("unique_with_tol", "util.py:508")],
    "Complete over the listed shapes, axes, dtypes and point sets.",
)
prop(
    "C28", "Concurrent calls do not disturb each other",
    "Two threads that call the library at the same time (on objects of their own; of the random decompositions, what does not depend on the random numbers) obtain the results they would obtain alone, for every interleaving of their execution: no call observes intermediate state of another one, and caches are only ever seen complete.",
    ["schedules"], "all interleavings of two calls with a bounded number of preemptions, at line granularity, over pairs of calls that share code and caches",
    "Every test is single threaded.",
    ["reduced_tensor_product.py", "util.py", "reduced_rep.py", "irreps/sun.py", "irreps/su2.py"],
    [("absence of shared mutable state; caches of immutable results", "reduced_tensor_product.py:224")],
    "All schedules with one preemption at every executed line of the library (two in the thorough tier for short pairs); switches inside a single line or inside numpy are not explored.",
    tech="stateless exploration of thread interleavings of the implementation under a controlled scheduler (preemption bounded)",
)

prop(
    "C29", "Irreps are static values under JAX transformations",
    "The JAX exponential map gives, compiled, batched over coordinates or integer powers, and differentiated (forward and reverse), what its NumPy definition gives; "
    "a function compiled with irreps as static arguments never serves one label with the code compiled for another, whatever the order of calls. "
    "A class made static for JAX gives immutable values with no array leaves that survive flattening and compare, hash and structure trees by their label.",
    ["inputs", "histories"], "all orders of labels served by one compiled function, all ordered pairs of labels of a class, every combination of transformations over every form of representation",
    "The tests do not touch the JAX functions.",
    ["jax_utils.py", "irrep.py", "rep.py", "group_product.py"] + IR,
    [("static_jax_pytree", "jax_utils.py:7"), ("matrix_power", "jax_utils.py:14"), ("exp_map", "jax_utils.py:40")],
    "Complete over the listed labels, starting points of the histories and combinations of transformations; single precision, real discrete generators, non-negative powers.",
    tech="bounded exhaustive exploration of call histories (caches of compiled functions) and of transformations of the implementation against a dense reference model",
)

prop(
    "C30", "Requests that have no answer are refused",
    "Weights that are no label of a group never give the matrices of an irrep, and every label gives them; text that is not the text of a label, or of a sum of multiples of labels, is refused, also when it begins with one. Sums with negative multiplicities or a change of basis of another size are refused. "
    "Products of labels, tensor products, direct sums, sums of multiples, intertwiners, Clebsch-Gordan coefficients and triplet checks of representations of different groups (other structure constants, another number of generators), and powers whose exponent is not a natural number, are refused in every form of the operands. "
    "So are group elements with a number of parameters other than that of the generators, positions beyond the patterns of a weight, and matrices, products and coefficients of the labels of SO(N) and Sp(N), which have none. "
    "A refusal ends promptly, leaves the operands as they were, and the same operation goes on working.",
    ["inputs"], "all weights of boxes that extend beyond the labels, all strings over an alphabet, all ordered pairs of different groups in every form with every operation",
    "The tests contain no request that must fail.",
    IR + ["reduced_rep.py", "tensor_product.py", "direct_sum.py", "infer_change_of_basis.py", "clebsch_gordan.py", "rep.py", "jax_utils.py", "irreps/son.py", "irreps/spn.py"],
    [("validation of labels", "irreps/sun.py:410"), ("same group", "tensor_product.py:12"), ("from_string", "reduced_rep.py:72")],
    "Complete over the boxes, strings and pairs in the evidence. Parities other than 1 and -1 are not judged. Negative weights of SO(3) and O(3) are refused at the latest when their matrices are asked for, other labels at once.",
)

NOT_APPLICABLE = []


def main(claimed=None):
    have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "mc/props")) if f.startswith("c"))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            q = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["tests"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                },
            }
            if p["state"]:
                q["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                q["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(q) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks = []
    na = list(NOT_APPLICABLE)
    for p in P:
        if p["id"] in have:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} --tier quick",
                "thorough_cmd": f"./check {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["tech"],
                "level": "model_checking",
                "level_note": p["note"],
            })
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {
        "version": 1,
        "setup_cmd": "./setup",
        "hooks": {"guard": "LIE_NN_VERIF", "enable": "no hook was needed: the checks import /repo unmodified", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check runs the code of /repo in forked workers over completely enumerated spaces; see DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    seeded = {}
    for b in sorted(os.listdir(os.path.join(VERIF, "seeded"))) if os.path.isdir(os.path.join(VERIF, "seeded")) else []:
        seeded.setdefault(json.load(open(os.path.join(VERIF, "seeded", b, "meta.json")))["property"], []).append(b)
    if seeded:
        path = os.path.join(VERIF, "DESIGN.md")
        text = open(path).read()
        start, end = "<!-- seeded -->\n", "<!-- /seeded -->"
        table = "| check | catches |\n|---|---|\n" + "".join(f"| {p} | {', '.join(b)} |\n" for p, b in sorted(seeded.items()))
        open(path, "w").write(text[: text.index(start) + len(start)] + table + text[text.index(end):])
    print(len(checks), "checks,", len(na), "not applicable")


main()
