from rules import groups, maps, elementwise, broadcast, sections, structure, transforms, addition, layout, contraction, networks, dmrg, linalg, decomp, slicing, models, dense, products

CHECKS = {}


def reg(pid, run, min, rule, assume=()):
    CHECKS[pid] = {'run': run, 'min': min, 'rule': rule, 'assume': list(assume)}


reg('A01', groups.a01, 200,
    'For every instantiated cyclic group C<N> and for Z, each public operation is abstractly interpreted on symbolic '
    'operands (affine normal form over Herbrand terms + intervals): on every path the stored/returned component must be '
    'congruent mod N to the group law (sum, negation, reduced value), lie in [0,N-1], and fit its storage at every '
    'intermediate store; comparisons must return exactly the comparison of the components; swap must exchange.')
reg('A02', groups.a02, 400,
    'Every operation of each instantiated composite quantity is abstractly interpreted over an abstract abelian group '
    '(component laws summarised by A01): the final components, argument and result must be exactly the component-wise '
    'product/inverse/copy/exchange; comparisons must return the tuple comparison; the type-erased wrapper and all '
    'operator overloads must agree with it and leave lvalue operands unchanged.')
reg('A03', groups.a03, 200,
    'Typestate: in every override that receives a type-erased quantity, container or iterator, a throwing concrete-type '
    'test of that argument (reference dynamic_cast, tested pointer dynamic_cast or iterator tag comparison) precedes '
    'every write and every return on all paths; no static downcast of an erased quantity exists outside a tag-guarded conversion.')
reg('A04', maps.a04, 70,
    'Each member of flat_map is abstractly interpreted with std::lower_bound/upper_bound as symbolic search results and key '
    'comparisons as order literals: a search result may be dereferenced only where the path excludes the past-the-end '
    'position; each keyed operation must, on every path, have determined whether the key is present and then return / '
    'insert at / erase exactly the searched position (hinted searches must use a window shown to contain the insertion '
    'point); members taking unordered elements must sort the whole content and then drop duplicates.')
reg('A05', maps.a05, 100,
    'Each merge/insert with callbacks is abstractly interpreted with symbolic callbacks and iterator provenance (this map / '
    'other map): collision gets (own element, other element) only where the path compared their keys, the no-collision '
    'action gets exactly the destination range of each copy from the other map, copies go from the other map into this one.')
reg('A06', elementwise.a06, 700,
    'Every element-wise operation with a scalar or on one tensor (members, in-place members, free functions, operators, every '
    'overload) is abstractly interpreted with torch operations as uninterpreted functions and loops summarised by their '
    'contribution per iteration: the result\'s block list must be the contribution of one complete walk over the operand\'s '
    'blocks, each storing exactly op(block, scalar) in the written operand order under the block\'s own index; shape fields are '
    'the operand\'s and the options those of a stored block (boolean for comparisons).')
reg('A07', broadcast.a07, 1500,
    'Every overload of the broadcasting operations is abstractly interpreted together with the shared broadcast routine: nested '
    'loop summaries must visit all pairs of blocks, combine a pair exactly when match_index holds for its two indices, under '
    'out_index of them, as the named torch operation in written operand order (in place only where the mask test excludes a '
    'block that is needed twice), with the shape computed from the operands ordered by rank. match_index, out_index and '
    'shape_compute are decided per dimension, positions in closed form relative to the last dimension.')
reg('A08', sections.a08, 120,
    'Every section lookup, the block views and the odometers that enumerate blocks are abstractly interpreted with closed forms for '
    'loops and sums over runs of a list: the entry read must be at (sum of the section counts of the earlier dimensions) + section, '
    'in the list named by the lookup; bounded lookups answer only where the path shows dimension and section in range and refuse only '
    'where it shows one out of range; a view position moves by exactly one dimension; a counter step keeps, advances or wraps each '
    'digit according to carry and limit (truth table over all paths of the loop body).')

reg('A09', structure.a09, 50,
    'The gate (block, block_at, the conservation test), the diagnosis (check_tensor, throw_bad_tensor) and every constructor from '
    'parts are abstractly interpreted with loops summarised per iteration: block() returns a slot only on paths where the index has '
    'the rank, every entry is within the section counts and the conservation test passed, and throws only where one of these fails; '
    'on every path on which the report of check_tensor may be empty, the counts agree and each iteration over the blocks that adds '
    'nothing has established index length, range, selection rule, rank and sizes; the constructors store the parts given and '
    'return only where the diagnosis of the stored parts was empty.')

reg('A10', transforms.a10, 90,
    'Each structure transformation (inverse, neutral shape, conjugation, shifts, selection rule), its copying and free forms, the '
    'constructors from another tensor, assignment and exchange are abstractly interpreted: the quantities must be changed by one '
    'loop over exactly the run of the list concerned, each to the required group expression of its old value, with the selection rule '
    'to match and every other part equal to before; where only empty tensors are admitted, the throwing paths are those with blocks '
    'and change nothing. A quantity received by reference is taken to be possibly one of those being modified.')

reg('A11', addition.a11, 500,
    'Every overload and operator that adds or subtracts block tensors is abstractly interpreted down to the merge of the two block lists: '
    'the callbacks are interpreted on (own block, other block) and on a copied block, and must store own + f*other and f*other with the '
    'written sign; a result is produced only on paths that found conserved quantities, rule and section sizes equal, and a throw occurs '
    'only where one differs and before any change; in-place torch operations may reach only copies (or the receiving tensor of an in-place '
    'form), a block of a temporary only where the path bounds its owner count.')

reg('A12', layout.a12, 60,
    'permute, permute_, transpose, transpose_ and the permutation of quantity lists are abstractly interpreted: the permutation used must be '
    'the argument with negative entries counted from the end; the section counts, section sizes and quantities of the result must be the '
    'concatenation, dimension by dimension, of exactly the run of the dimension it comes from; each block of a complete walk must move to the '
    'index permuted in the same way with its content permuted alike; rule, rank and options must be kept.')
reg('A13', contraction.a13, 60,
    'The compatibility test of contracted dimensions, the structure constructors and the argument stages of tensordot, bmm and '
    'tensor_product_shape are abstractly interpreted with loops in closed form: a refusal must be reachable only when an item differs and '
    'acceptance must imply that every item was compared equal; the result\'s sections must be the ascending uncontracted runs of the first '
    'then the second operand, its rule their product; block and matrix permutations must be (free, contracted).')
reg('A14', networks.a14, 60,
    'Every contraction of chains is abstractly interpreted into the tensor network it performs (which leg of which tensor is joined to which, '
    'which tensors are conjugated, what is left open, in what order): loops are judged per iteration, the network of one step must be the '
    'documented one and the trip count must visit every site; edges must be the identity or the ones of the outer legs; a path on which the '
    'lengths may differ must not return.')
reg('A15', networks.a15, 60,
    'move_oc, coalesce and the two-site update are abstractly interpreted with the factors of a singular value decomposition as atoms: '
    'U, D and conjugated V joined over their bond recompose into what was decomposed, so each step must recompose to the sites it '
    'replaces, leave a bare factor (an isometry) on the side it leaves, and set the declared center accordingly.')
reg('A16', dmrg.a16, 200,
    'The local problem of DMRG is evaluated over rational functions with square roots of the scalar products of the state: one_step_lanczos gives '
    '<s|H|s>, the norm of (H-<s|H|s>)s, that vector and its expectation value; eig2x2Mat gives the smaller eigenvalue and its unit eigenvector, by '
    'identity of the formulas; two_sites_update combines them, and keeps a state the Hamiltonian leaves in place. Every sweep is a walk reflected '
    'at the first and last pair, as long as one return trip, and dmrg_impl starts it on a pair that holds the center, stops early only when the '
    'change of energy is not above the criterion, returns the energy of the last sweep and moves the center back from where the walk ends.')
reg('A17', decomp.a17, 130,
    'The blocks must be sorted stably by an order of the quantities of their last two dimensions, judged by evaluating the comparison in every way '
    'two blocks can compare; one pass must end a group exactly between blocks that differ in another index or in a quantity, and the number of groups '
    'must count the same changes. The matrix of a group has zeros, one place per row and column section in increasing order behind the one before, '
    'and every block at the place of its own. svd and eigh decompose the matrix of every group, store the pieces of its factors under the other '
    'indices, the section of the row or column and the number of the group, with the dimensions, rules and quantities of factors that multiply back.')
reg('A18', linalg.a18, 200,
    'Every truncating overload is abstractly interpreted down to compute_last_index (dense) or truncate_impl (block): tolerance, power, minimum and '
    'maximum must arrive at their place, all pieces must be cut along the bond after the same index. compute_last_index is one downward walk whose '
    'stop conditions and running error are compared with the specification. In truncate_impl each block of values, its section size, and the matching '
    'blocks and section of every unitary must be cut to the same number or removed together, under one threshold from the sorted values of all blocks.')
reg('A19', slicing.a19, 80,
    'shape_from, to_block_basis, basic_create_view, rank_preserving_shape, the indexed assignments and squeeze are abstractly interpreted with one index '
    'per dimension, -1 for a whole dimension. The search must end on the section whose elements are the index, the shape must list the kept dimensions '
    'in order with everything that belongs to them and carry the quantities of the fixed ones in its rule, and views and assignments must take exactly '
    'the blocks whose fixed sections are the ones found, re-keyed by the kept sections in order, and address the elements found inside them.')
reg('A20', models.a20, 150,
    'The operator and Hamiltonian builders are abstractly interpreted; matrix entries are polynomials in the symbolic couplings. The four or five operators must satisfy '
    'the algebra that defines them. The product of the site tensors returned must be the documented sum of local and neighbour terms, for short chains entry by entry and '
    'for longer ones by the paths through the repeated site. Each entry of the block versions must be admitted by the rule, bond and physical quantities at its place '
    'for every physical shape that conserves the model, every site must hold its dense site, and one that does not fit must be refused.')
reg('A21', dense.a21, 400,
    'Each factory is abstractly interpreted: one walk must start at the first block index, step with block_increment until it returns there, and store at exactly the '
    'indices that the selection rule admits a torch tensor made by the factory of that name with the block extents, the options of the result and the values passed; '
    'nothing may be stored when a dimension has no section. full_slice must return the range of elements of its sections in every dimension and refuse others, '
    'to_dense must write every block there over zeros, and from_basic_tensor must store what is read there unless its norm is at most the cutoff. allclose is '
    'compared with the merge of two sorted lists, find_selection_rule with the product of the quantities of row and column.')
reg('A22', products.a22, 200,
    'tensordot is abstractly interpreted with iterators as positions in the two permuted, sorted lists of blocks. Each list must be cut in groups with equal remaining '
    'indices, every group of one met with every group of the other. In a pair of groups the search must drop, in each of the three possible orders of the contracted '
    'parts, exactly the block that comes first, and stop at a pair that agrees; every pair found, the first and each that follows, must be multiplied left by right and '
    'added once, to the last, and the sum stored under the remaining indices of both with the shape of its block in a list that has a place for each.')
