"""The properties, and what each check says about itself.  tools/gen.py turns this into properties.jsonl and MANIFEST.json."""
PROPS = []
NOT_APPLICABLE = {
    'N01': 'convergence depends on the spectrum of the Hamiltonian, the starting state, the bond limit and rounding; no static argument over the source bounds them. '
           'What the sweep, the local update and the truncation do is decided by A14, A15, A16 and A18.',
    'N02': 'sizes of rounding errors are quantities of the run; the decompositions are computed by torch, whose source is not part of the repository. '
           'That the factors multiply back in exact arithmetic is decided by A15 and A17, the choice of what is discarded by A18.',
}
# behaviour that is not stated as a property, with the reason (DESIGN.md, section 3)
BEYOND = [
    ('16-bit range of the integer quantity', 'products of integer quantities beyond it wrap; how large the quantities of a calculation become is a run time quantity (A01 assumes the range).'),
    ('speed and memory', 'no obligation is stated about either.'),
    ('python bindings', 'pybind11 is not installed here, so `python_binding/` is not part of the build and a change in it cannot be demonstrated.'),
]


def P(id, title, statement, quant, why, files, mech, tech, note, over=('inputs',), observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, tech=tech,
                      note=note, over=list(over), observe=list(observe), state=list(state)))


TRUST = ' Trusts clang 18\'s type-checked syntax trees and the analyser in /verif/checks.'

P('A01', 'Elementary conserved quantities form the abelian groups they name',
  'For every cyclic order N and every operand, the product, conditional product, inverse, construction from any signed '
  'integer and neutral element of a cyclic quantity give the residue prescribed by addition modulo N, always stored in '
  'canonical form 0..N-1, so two equal elements always compare equal. Integer quantities add and negate exactly (within '
  'their 16-bit range), a conditional product with a false condition changes nothing, and ordering, exchange and squared '
  'distance of both kinds are those of the stored numbers.',
  'all operand values, all construction arguments in the 16-bit range, and cyclic orders across the whole allowed range',
  'tests try five or six small elements of C<2> and C<5>; the law must hold for every operand and order',
  ['include/Conserved/quantity.h', 'include/Conserved/quantity_utils.h'],
  [('group law, inverse and reduction of the constructor', 'include/Conserved/quantity.h C<N>, Z')],
  'abstract interpretation: affine congruences + intervals over the typed AST',
  'Sound for every operand and every order in the analysed list (1..65535, incl. extremes); 16-bit overflow of the integer quantity is a documented limit and assumed away.' + TRUST,
  observe=['results of operators on conserved::C<N> and conserved::Z'])

P('A02', 'Composite and type-erased quantities act component by component',
  'Every operation on a composite quantity (product, conditional product, product into the argument, inverse, copy, '
  'clone, neutral element, exchange, comparisons, squared distance) acts on each component exactly as the component group '
  'prescribes and touches no other operand. The type-erased wrapper and every operator overload, for any mix of lvalues '
  'and temporaries, give that same group element and leave lvalue operands unchanged. Assigning a type-erased quantity '
  'makes the target equal to the source whatever type the target held before.',
  'all composite types the library instantiates, all component values, all overloads of each operator',
  'tests compare a handful of elements of one or two composite types; overloads and components not sampled are free to differ',
  ['include/Conserved/Composite/quantity_impl.h', 'include/Conserved/Composite/cquantity.h', 'sources/any_quantity.cpp'],
  [('component-wise fold', 'include/Conserved/Composite/quantity_impl.h quantity<...>'), ('value-semantics wrapper', 'include/Conserved/Composite/cquantity.h any_quantity')],
  'abstract interpretation over an abstract abelian group (Herbrand/affine value numbering)',
  'Sound for all values of the composite types instantiated by the library; component laws are taken from A01.' + TRUST,
  observe=['results of operators on quantity<...> and any_quantity'])

P('A03', 'Quantities of different symmetry types never mix silently',
  'Any operation that combines two type-erased quantities, or a type-erased container with a quantity, container or '
  'iterator, either finds both sides to be of the same concrete symmetry or throws a bad-cast exception, and it does so '
  'before changing either side. The same-type query answers exactly that question.',
  'all pairs of concrete symmetry types and all operations of the type-erased interface',
  'tests exercise a few mismatching pairs on a few operators; an unchecked downcast elsewhere is undefined behaviour that may appear to work',
  ['include/Conserved/Composite/quantity_impl.h', 'include/Conserved/Composite/quantity_vector_impl.h'],
  [('throwing dynamic casts', 'include/Conserved/Composite/quantity_impl.h'), ('iterator tags', 'include/Conserved/Composite/quantity_vector_impl.h to_S_iterator')],
  'typestate analysis of downcasts on all paths + who-may-downcast rule',
  'Path-complete within each override; exception type relies on the language rule for reference dynamic_cast.' + TRUST,
  observe=['std::bad_cast from operations on mismatching types'])

P('A04', 'Block container lookups and keyed edits hit exactly the requested key',
  'For every content of the sorted block container and every key, looking a key up, testing for it, reading or indexing '
  'it, inserting, hint-inserting, emplacing and erasing it act on the element with that key if it is present and on no '
  'other element, and report its absence otherwise; none of them reads past the last element, even on an empty container. '
  'A container built from or extended with elements in any order ends up sorted with unique keys.',
  'all container contents (including empty), all keys, all hints',
  'tests use a few integer keys; empty containers, absent keys beyond the last element and odd hints are not sampled',
  ['include/blockTensor/flat_map.h'], [('keyed operations', 'include/blockTensor/flat_map.h flat_map')],
  'abstract interpretation with symbolic search results (typestate of search iterators)',
  'Sound for every content and key at the level of std::lower_bound\'s contract; shown on the int->double instantiation of the template.' + TRUST,
  observe=['flat_map members'])

P('A05', 'Merging block lists applies each callback to the right elements',
  'When one block list is merged into another, the collision callback is called only on two elements with the same key, '
  'with the element of the receiving list first and that of the other list second. The no-collision callback is called on '
  'exactly the elements that came from the other list without a counterpart, never on elements the receiving list already had or on ones that collided.',
  'all pairs of contents, all callbacks',
  'whether an element is treated depends on how the two key sequences interleave; tests sample a few interleavings and no no-collision callback',
  ['include/blockTensor/flat_map.h'], [('backward merge', 'include/blockTensor/flat_map.h flat_map::insert/merge')],
  'abstract interpretation with iterator provenance and affine range equality',
  'Sound for callback roles and treated ranges on all interleavings; that the merged order stays sorted is not decided.' + TRUST,
  observe=['flat_map::merge', 'btensor::add', 'btensor::sub'])


P('A06', 'Element-wise operations act on every stored block and on nothing else',
  'An element-wise operation with a scalar or on a single block tensor (arithmetic, comparison, power, root, absolute value, NaN '
  'test, conjugation, type conversion), whether member, in-place, free function or operator, stores under the index of every '
  'stored block exactly that operation applied to that block, operands in the written order, and stores no other block. The '
  'shape, conserved quantities and selection rule of the result are those of the operand; its options are those of the blocks '
  'it holds, boolean for comparisons. Only the in-place variants change their operand.',
  'all block tensors (any rank, block pattern, symmetry type and element type) and all scalar arguments, over all overloads',
  'tests apply a few of the roughly eighty overloads to one small tensor; an overload that skips a block, swaps operands or mislabels its options passes them',
  ['sources/btensor.cpp', 'include/blockTensor/btensor.h'],
  [('apply-to-all-blocks helpers and the overloads built on them', 'sources/btensor.cpp')],
  'abstract interpretation with loop summaries; torch operations uninterpreted',
  'Sound for every operand under the semantics of torch operations by name; the numeric result of torch itself is not examined.' + TRUST,
  observe=['result of btensor::mul, div, pow, comparisons, sqrt, abs, isnan, conj_only, to, operators'])

P('A07', 'Broadcasting combines exactly the matching pairs of blocks',
  'A broadcasting element-wise operation of two block tensors stores one block for each pair of blocks whose indices, counted '
  'from the last dimension, agree in every dimension where neither operand is a singleton, under the combined index and equal to '
  'that operation on the two blocks in written order. The sections of each dimension of the result are those of the non-singleton '
  'operand, its conserved quantities and selection rule the products of those of the operands, its options boolean for comparisons '
  'and promoted otherwise; different non-singleton dimensions, and in-place first operands of smaller rank, are refused. Only the '
  'in-place variants change their first operand, and none changes the second.',
  'all pairs of block tensors (ranks, block patterns, singleton dimensions, element types) and every overload',
  'tests broadcast one or two pairs of shapes; the pairing depends on ranks, singleton masks and block indices together',
  ['sources/btensor.cpp', 'include/blockTensor/btensor.h'],
  [('shared broadcast routine, match_index, out_index, shape computation', 'sources/btensor.cpp')],
  'abstract interpretation with nested loop summaries and per-dimension closed forms',
  'Sound for every pair of operands under the semantics of torch operations by name; the numeric result of torch itself is not examined.' + TRUST,
  observe=['results of mul, div, pow, comparisons and bitwise operations between two btensors'])


P('A08', 'Section lookups, block views and enumeration address the right section',
  'Each lookup by dimension and section returns the size or quantity (or the whole range) of exactly that section, and the quantity '
  'of an element is that of the section containing it; the lookups that can refuse refuse exactly out-of-range requests. The block '
  'views yield for each dimension the size and quantity of the section the block index picks there. The counters that step through '
  'block indices visit every index once, rightmost dimension fastest.',
  'all block tensors (any rank, any number and size of sections) and all dimension, section and element numbers',
  'the position of a section in the flat lists depends on the section counts of all previous dimensions; tests look a few sections up in tensors with few sections per dimension',
  ['sources/btensor.cpp', 'include/blockTensor/btensor.h'],
  [('section_size, section_conserved_qtt*, element_conserved_qtt, block_quantities, block_sizes, block_increment', 'include/blockTensor/btensor.h')],
  'abstract interpretation with closed forms for partial sums and loop trip counts',
  'Sound for every tensor; the values stored in the flat lists are the subject of A09.' + TRUST,
  observe=['section_size', 'section_conserved_qtt', 'element_conserved_qtt', 'block_sizes', 'block_quantities'])


P('A09', 'A block tensor never holds a block its structure does not allow',
  'Asking a block tensor for the slot of a block succeeds exactly when the index has the length of the tensor\'s rank, lies within its '
  'sections and the product of the conserved quantities of the block equals the selection rule; asking for a stored block never '
  'creates one. An empty diagnosis of a tensor means that rank, section counts, sizes and quantities agree and that every stored '
  'block has a valid allowed index and the sizes of its sections. A tensor constructed from parts has exactly the sections and '
  'quantities given, and malformed parts are refused.',
  'all structures (rank, sections, symmetry types, selection rules), block indices and block contents',
  'whether a block is allowed depends on index and quantities together; tests ask for a few valid blocks and never for a malformed index or a malformed tensor',
  ['sources/btensor.cpp', 'include/blockTensor/btensor.h'],
  [('block, block_at, block_conservation_rule_test, check_tensor, constructors', 'sources/btensor.cpp')],
  'abstract interpretation with emptiness tracking of the diagnosis and per-iteration guarantees',
  'Sound for every tensor; that a diagnosis is never given for a well-formed tensor is not decided, and torch sizes are taken from the tensor interface.' + TRUST,
  observe=['btensor::block', 'btensor::block_at', 'btensor constructors', 'check_tensor', 'throw_bad_tensor'])


P('A10', 'Structure transformations keep quantities, rule and blocks consistent',
  'Inverting, neutralising or shifting changes exactly the conserved quantities concerned (all, or those of one dimension, each once) and '
  'changes the selection rule to match, so that the blocks of a tensor stay allowed, and nothing else; it holds too when the shift '
  'is one of the tensor\'s own quantities. Transformations that would not keep blocks allowed are refused, before any change, exactly '
  'for tensors with blocks. Copying, moving, assigning and exchanging tensors carry over every part, and copying forms leave their operand alone.',
  'all block tensors, quantities, dimensions, with and without blocks',
  'tests transform one or two tensors of one symmetry; a rule or a section left behind only shows for particular quantities',
  ['sources/btensor.cpp', 'include/blockTensor/btensor.h'],
  [('inverse_cvals_, neutral_shape_, cval_shift_, shift_selection_rule_, set_selection_rule_, conj, swap', 'sources/btensor.cpp')],
  'abstract interpretation with per-iteration effects, may-alias treatment of reference arguments',
  'Sound for every tensor, relying on A01/A02 for the group operations.' + TRUST,
  observe=['get_cvals, selection_rule, blocks of the transformed tensors'])

P('A11', 'Sums and differences combine blocks with equal index and refuse mismatches',
  'Adding or subtracting two block tensors (members, in-place members, operators, lvalue or temporary operand, with factor) is refused '
  'before any change exactly where their conserved quantities, selection rules or sections differ, and otherwise stores, under each index '
  'that either tensor stores, the first block plus the signed factor times the second, a missing block counting as zero; the structure is '
  'that of the operands and the options those of the stored blocks. Adding a number adds it to every allowed block. Only the '
  'in-place forms change their first operand, no lvalue second operand changes, and an out-of-place result shares no block with a lvalue operand.',
  'all pairs of block tensors, all factors, every overload, blocks shared between tensors or not',
  'tests add a few tensors of one structure; a sign or factor lost for blocks only one operand has, an unchecked overload, a block shared with '
  'or changed in an operand only shows for particular sparsity patterns and owners',
  ['sources/btensor.cpp', 'include/blockTensor/btensor.h'],
  [('btensor::add, add_, sub, sub_, subtract, operators, add_tensor_check, test_same_shape', 'sources/btensor.cpp')],
  'abstract interpretation; symbolic merge callbacks; in-place effects and owner counts',
  'Sound for every pair of tensors, relying on A05 for which blocks the merge hands to which callback.' + TRUST,
  observe=['blocks, get_cvals, selection_rule of result and operands'])

P('A12', 'Permuting dimensions carries sections, quantities and blocks along',
  'For every valid permutation (negative entries count from the end), permuting a block tensor, in place or not, gives the tensor whose '
  'dimension i has the sections (number, sizes, conserved quantities, in order) of dimension p[i] of the original, and which stores for '
  'each block of the original, and for no other index, that block with its own dimensions permuted, under the index permuted in the same '
  'way; selection rule, rank and options are kept. Transposing exchanges the two given dimensions, positive or negative, and no other.',
  'all block tensors (any rank, sections per dimension, set of blocks) and all valid permutations',
  'tests permute a few tensors whose dimensions have equally many sections, with self-inverse permutations; a permutation applied in the '
  'wrong direction, or to only one of sections, quantities, index and content, shows only for cyclic permutations of unequal dimensions',
  ['sources/btensor.cpp', 'include/Conserved/Composite/quantity_vector_impl.h', 'include/Conserved/Composite/quantity_vector.h'],
  [('btensor::permute, permute_, transpose, transpose_', 'sources/btensor.cpp'), ('quantity_vector::permute', 'include/Conserved/Composite/quantity_vector_impl.h')],
  'abstract interpretation with closed forms of loops; runs of concatenated lists',
  'Sound for every tensor and every valid permutation; torch permute of a block is taken at its documented meaning.' + TRUST,
  observe=['section_numbers, section_sizes, get_cvals, blocks of the result'])

P('A13', 'Contraction checks its dimensions and gives the documented structure',
  'A contraction (tensordot, and bmm along its inner dimension) is refused exactly where the lists of dimensions differ in length, the kinds '
  'of conserved quantities differ, or some contracted pair of dimensions differs in its number of sections, a section size, or has '
  'quantities that do not multiply to the neutral one. Otherwise the result\'s dimensions are the uncontracted dimensions of the first operand '
  'then those of the second, in ascending order, each with its sections and quantities, its selection rule is the product of both, its element '
  'type their promotion; tensor_product_shape gives the same structure with nothing contracted. Before blocks are multiplied, each is brought to '
  '(free, contracted) order, the order of the contracted dimensions being that of the lists.',
  'all pairs of block tensors, all lists of dimensions (any order, negative or not, empty), all selection rules',
  'tests contract tensors built to be compatible, along one or two dimensions given in ascending order; a comparison left out, sections of the '
  'wrong dimension or a permutation applied to one operand only shows for particular lists and sections',
  ['sources/btensor.cpp', 'include/blockTensor/btensor.h', 'sources/dimension_manip.cpp', 'include/dimension_manip.h'],
  [('btensor::tensordot, bmm, tensor_product_shape, check_product_compat', 'sources/btensor.cpp')],
  'abstract interpretation with closed forms of loops; path facts at refusals and acceptances',
  'Sound for the tests and the structure, for valid distinct dimension numbers; which blocks are paired is not part of this property.' + TRUST,
  observe=['exceptions; section_numbers, section_sizes, get_cvals, selection_rule of the result'])

P('A14', 'Contractions of chains are the tensor networks they are documented to be',
  'Contracting two chains, with or without an operator and with or without given edges, is the one network made of every site of the first chain, '
  'of the operator and of the conjugate of the second, joined along their bonds and physical legs and closed by the edges, and lengths that differ '
  'are refused. The environments made before and during DMRG are that network cut at the orthogonality center (lower state, operator, conjugated '
  'upper state, in this order), the two-site operators and the product of a two-site operator with a two-site state are the documented networks with '
  'the documented order of legs. Trivial edges carry the outer legs reversed, with a selection rule under which they can be filled.',
  'all chains of every length, dense and block tensors, all bond dimensions and conserved quantities',
  'tests contract one or two short chains with real entries and equal bond dimensions, for which a forgotten conjugation, an exchanged leg of a '
  'symmetric operator or an environment of the wrong site give the same number',
  ['sources/MPT.cpp', 'sources/dmrg.cpp', 'include/MPT.h', 'include/dmrg.h'],
  [('contract', 'sources/MPT.cpp'), ('generate_env, compute_left_env, compute_right_env, compute_2sitesHamil, hamil2site_times_state, trivial_edge', 'sources/dmrg.cpp')],
  'abstract interpretation into tensor networks, compared up to graph isomorphism',
  'Sound for the networks formed; tensordot, permute and conj are taken at their documented meaning.' + TRUST,
  observe=['values returned by contract, compute_2sitesHamil, hamil2site_times_state, trivial_edge'])

P('A15', 'The orthogonality center is where the chain says it is',
  'Moving the orthogonality center refuses exactly the sites outside the chain before changing anything and otherwise ends on the requested site; '
  'each step changes only two neighbours, leaves the state they represent unchanged and leaves an isometry (one factor of a singular value '
  'decomposition) on the site it leaves. Coalescing an operator visits every bond and keeps the operator represented up to the cutoff. The two-site '
  'update of DMRG optimises the pair at the center with the environments of its two sides, replaces that pair by its optimised and normalised version, '
  'leaves an isometry on the side it leaves, and renews the environment of that side.',
  'all chains of every length, dense and block tensors, all positions of the center, both directions',
  'tests move the center of one random chain and check the norm, and run DMRG to its converged energy, which forgives a lost conjugation with real '
  'entries, a stale environment or a center declared on the wrong site',
  ['sources/MPT.cpp', 'sources/dmrg.cpp', 'include/MPT.h'],
  [('MPS::move_oc, bMPS::move_oc, bMPO::coalesce', 'sources/MPT.cpp'), ('dmrg_2sites_update::operator()', 'sources/dmrg.cpp')],
  'abstract interpretation into tensor networks with the factors of a decomposition as atoms',
  'Sound up to rounding and truncation, given that svd returns isometric factors that recompose to its argument.' + TRUST,
  observe=['sites and orthogonality_center of the chain'])
P('A16', 'DMRG lowers the energy of each pair, sweeps the whole chain and reports it',
  'The update of a pair of sites returns the lower eigenvalue of the Hamiltonian on the space spanned by the state and the Hamiltonian times the state, '
  'with the normalised state of that energy, for real and complex tensors, and keeps the state, with its energy, when the Hamiltonian leaves it in place. '
  'A sweep updates every pair of the chain in both directions and turns round exactly at its two ends; a run repeats sweeps until the energy changes by '
  'no more than the convergence criterion or the maximum number of iterations is reached. It returns the energy of the last sweep, leaves the '
  'orthogonality center on the site it declares (where it was, or next to it when that was the last site), gives the tensors back their options, and '
  'refuses only a state of norm zero.',
  'all Hamiltonians, states and options, chains of two sites or more, all positions of the center, dense and block tensors',
  'tests run DMRG on a few real models from random states to a loose tolerance: they forgive a wrong phase, skipped pairs, a degenerate local '
  'problem, and a center left on another site than the declared one',
  ['sources/dmrg.cpp', 'include/dmrg.h'],
  [('details::one_step_lanczos, eig2x2Mat, two_sites_update, sweep, details::dmrg_impl, dmrg, dmrg_gradient_guard', 'sources/dmrg.cpp')],
  'abstract interpretation into rational functions with square roots over scalar products; path analysis of the sweep and of the run',
  'Sound up to rounding and truncation. That the local updates converge to the ground state is not claimed. Assumes the two-site operators come one '
  'per bond of the chain.' + TRUST,
  observe=['energy returned by dmrg', 'state after dmrg'])

P('A17', 'Block tensors are decomposed sector by sector into factors that fit back',
  'svd and eigh of a block tensor decompose, for each group of blocks that share all but the last two indices and the quantities of the last two '
  'dimensions, the one matrix in which every block of the group lies at the place of its row and column section, rows and columns each in increasing order, '
  'with zeros elsewhere; every block belongs to exactly one group. The bond has one section per group, with the quantity of the columns of the group and '
  'as many values as the decomposition of its matrix has; U carries the selection rule of the tensor and its dimensions but the last, V is neutral with the '
  'last dimension inverted and the inverse bond, the values are real, and each block of a factor is the cut of the group\'s factor at that row or '
  'column. The forms with a split, dense and block, decompose the matrix of the first `split` dimensions against the others and give the factors '
  'those dimensions back, followed by the bond.',
  'all block tensors, of any rank, with any sections, sectors and missing blocks; all splits',
  'tests decompose a few tensors with one or two sections per sector; the order of equal keys, several row or column sections per sector, '
  'missing blocks within a sector and batches are not sampled',
  ['sources/btensor_linalg.cpp', 'sources/LinearAlgebra.cpp', 'include/LinearAlgebra.h'],
  [('compact_dense and its helpers, svd, eigh', 'sources/btensor_linalg.cpp'), ('svd, eigh with a split', 'sources/LinearAlgebra.cpp')],
  'abstract interpretation with lists of blocks as terms; comparisons evaluated over all relations of two blocks; shapes in an algebra of dimensions',
  'Sound for the bookkeeping; what torch returns for one matrix is trusted. With some=false only the number of bond sections is decided.' + TRUST,
  observe=['what svd and eigh return'])
P('A18', 'Truncating a decomposition cuts values and unitaries together, as asked',
  'A truncation keeps the largest values: one more is discarded only while more than the requested minimum (and more than one) are kept, and only if the '
  'sum of |value|^pow over everything discarded, it included, is at most tol^pow or more than the requested maximum are kept; it goes on for as long as '
  'that holds. Every piece of the decomposition is cut along its bond to the same values; for block tensors one threshold (up to rounding) decides for '
  'all blocks together, each bond section takes the size of what is kept of it, a block of which nothing is kept disappears with exactly the blocks of the unitaries '
  'that meet it, and exact zeros are kept only as far as the minimum requires. All truncating forms of svd, eigh and truncate, dense and block, hand over '
  'tolerance, power, minimum and maximum at their place, and the values of block tensors in descending order.',
  'all decompositions, tolerances, powers, minima and maxima; dense and block tensors; tuples and separate pieces',
  'tests truncate a few matrices with one set of limits, where all the limits agree; consecutive sections removed, zeros, no values at all, or '
  'arguments in another order are not sampled',
  ['sources/btensor_linalg.cpp', 'sources/LinearAlgebra.cpp', 'include/LinearAlgebra.h'],
  [('truncate_impl, lower_bound, truncate, svd, eigh with tolerance', 'sources/btensor_linalg.cpp'), ('compute_last_index, truncate, svd, eigh with tolerance', 'sources/LinearAlgebra.cpp')],
  'abstract interpretation with the tensor operations as terms; per-iteration comparison of the cuts of values, sections and unitaries',
  'Sound up to rounding. Within a degenerate multiplet at the threshold all or none is kept, so the limits are met up to degeneracy. One known finding: '
  'the block eigh hands over ascending values.' + TRUST,
  observe=['what svd, eigh and truncate return'])
P('A19', 'Slices and indexed assignments address exactly the elements asked for',
  'A view that gives every dimension an index, or -1 for all of it, consists of exactly the blocks whose fixed indices lie in the section that holds the index, keyed by the '
  'sections of the kept dimensions in order, each restricted to the elements at that place; its sections, sizes and quantities are those of the kept dimensions '
  'and its selection rule accounts for the quantities of the fixed ones, while '
  'dimensions kept at size one carry the quantity of the fixed index. An indexed assignment writes the elements of the value to exactly these places, zeros where '
  'the value has no block, keeps every other element, and refuses a value of another shape or rule. Squeezing removes exactly the dimensions of one element '
  'that it is asked to remove.',
  'all block tensors, shapes, indices and values',
  'tests slice a few tensors in which all blocks are present, where leftovers in absent blocks, the last element of a section, or quantities of the removed '
  'dimensions do not show',
  ['sources/btensor.cpp'],
  [('shape_from, to_block_basis, basic_create_view, basic_index_put_, rank_preserving_shape, squeeze', 'sources/btensor.cpp')],
  'abstract interpretation of the slicing functions with the list of indices symbolic; per-iteration comparison of keys, sections and element places',
  'Sound over the facts the library states about its own data. Two defects were repaired: elements kept their values where the value of an assignment has no block, '
  'and squeeze_ failed on dimensions of a non-neutral quantity. Index lists longer or shorter than the rank are refused by other code.' + TRUST,
  observe=['what views, assignments and squeeze return'])
P('A20', 'Ready-made operators and model Hamiltonians are the documented ones',
  'The spin operators are the Pauli matrices with a lowering operator that lowers the spin and sums with its transpose to Sx; the fermion operators satisfy the canonical '
  'anticommutation relations and F is the parity of the electron number; the block versions hold the same operators in the same order, in the shape given, each with its own selection rule. '
  'Contracting the sites of Heisenberg(J,L) gives -J times the sum of S.S over neighbours, and of Hubbard(U,mu,L) the sum of U n_up n_dn - mu N and unit hopping with the '
  'fermionic sign (either overall sign of the hopping), for real or integer couplings and every length from one on, while length zero is refused. The block Hamiltonians hold the '
  'same operator on every site for any physical shape whose quantities the model conserves, and throw for one that cannot hold it.',
  'all couplings, chain lengths and physical shapes',
  'tests build a few chains of fixed length and couplings and check one energy',
  ['sources/models.cpp', 'sources/operators.cpp', 'include/models.h', 'include/operators.h'],
  [('Heisenberg, Hubbard, to_bMPO', 'sources/models.cpp'), ('pauli, fermions', 'sources/operators.cpp')],
  'abstract interpretation with matrix entries as polynomials over the symbolic couplings; automaton argument for the length; group words for the quantities',
  'Sound in exact arithmetic; complex couplings are outside the statement (the builders work in the default real type). Seven defects were repaired, see DESIGN.md.' + TRUST,
  observe=['operators and Hamiltonians returned'])
P('A21', 'Factories, dense conversions and comparison of block tensors',
  'Every factory of block tensors (zeros, ones, empty, rand, randn, full, randint, each also as _like, and eye) gives a tensor of the requested shape, selection rule and options in which '
  'every block the rule permits, and no other, is the torch tensor of that name with the sizes of its sections, and no block when a dimension has no section; the versions for dense shapes '
  'give the torch tensor of the sizes of the shape. to_dense writes every block at the elements of its sections over zeros, item reads the only block, and from_basic_tensor stores what is at '
  'those elements unless its norm is at most the cutoff, with the options of the values overridden by the given ones, and refuses values of other sizes. allclose answers as torch would for the '
  'dense tensors, absent blocks counting as zeros, and false for tensors of different shapes; find_selection_rule gives the common product of row and column quantities of the elements '
  'above the cutoff, and throws when there are several.',
  'all shapes, selection rules, options, values, cutoffs and tolerances',
  'tests make a few tensors of rank 2 to 4 whose dimensions all have sections, and compare tensors with the same blocks',
  ['sources/btensor.cpp', 'include/blockTensor/btensor.h'],
  [('factory_wrap, full_slice, to_dense, from_basic_impl, allclose, find_selection_rule, eye_like', 'sources/btensor.cpp')],
  'abstract interpretation; walk over the block indices as an odometer; sums of section sizes in closed form; merge of sorted lists',
  'Sound over the facts the library states about its own data (sorted blocks, agreeing lists of sections). Eight defects were repaired, see DESIGN.md. '
  'Random values and rounding are those of torch.' + TRUST,
  observe=['tensors returned by the factories and conversions', 'answers of allclose and find_selection_rule'])

P('A22', 'Contractions multiply exactly the matching pairs of blocks',
  'Every block of tensordot(a, b, dims_a, dims_b) is the sum, over all pairs of a block of a and a block of b whose indices agree on the contracted dimensions and whose remaining indices, '
  'those of a followed by those of b, are the index of the block, of the product of the two as matrices, each pair counted once and a before b. A block is present exactly when there is '
  'such a pair, with the sizes of its sections; this holds whatever blocks are present or missing, for contraction over all, some or no dimensions, and for tensors of rank zero.',
  'all shapes, dimension lists and sets of blocks present',
  'tests contract a few tensors of rank 2 to 4 with all permitted blocks present and compare them with the dense contraction',
  ['sources/btensor.cpp'],
  [('btensor::tensordot', 'sources/btensor.cpp')],
  'abstract interpretation; merge of sorted lists judged in every relative order of two keys; inductive invariant of the accumulation loop',
  'Sound given sorted lists of permuted blocks (A13) and valid tensors.' + TRUST,
  observe=['blocks of the result'])

P('N01', 'DMRG converges to the lowest energy state',
  'For a Hamiltonian with a gap and a starting state that is not orthogonal to its lowest state, dmrg ends with the lowest energy up to the requested convergence criterion.',
  'all Hamiltonians, starting states and options', 'tests try two models of a few sites', ['sources/dmrg.cpp'], [('dmrg', 'sources/dmrg.cpp')], '', '')

P('N02', 'Decompositions and truncations are accurate in floating point',
  'The factors returned by svd and eigh multiply back to the tensor up to rounding, and the norm of what a truncating decomposition discards is at most the tolerance, in floating point arithmetic.',
  'all tensors and tolerances', 'tests decompose a few random tensors', ['sources/LinearAlgebra.cpp', 'sources/blockTensor/LinearAlgebra.cpp'],
  [('svd, eigh', 'sources/LinearAlgebra.cpp')], '', '')
