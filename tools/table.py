TC = ('contract-based deductive verification: verification conditions generated on every run from the clang AST of the real '
      'C++ sources by symbolic execution with loop invariants, discharged by z3/cvc5/exact algebra; counter-models replayed on '
      'the compiled code, bounded differential check of the compiled code beside it')
TP = ('contract-based deductive verification: verification conditions generated on every run from the Python AST of the real '
      'sources by symbolic execution (loops over symbolic extents closed by proved summaries, callees through contracts), discharged by '
      'z3/cvc5/exact algebra; bounded differential check of the running code beside it')
HOOKS = None
PYTESTS = 'The repository\'s Python tests print values for a few sample files and assert nothing about them.'
TESTS = 'The repository\'s C++ tests only print values for one or two crystals and assert nothing; the stable suite does not touch this code.'
P = [
 dict(id='C01', title='Cutoff functions are exact, smooth, and differentiated correctly',
  statement='For every cutoff radius, inner radius below it and distance, each switching function is 1 inside the inner radius (not fixed there for the moment-tensor variants), 0 from the cutoff on, and the quintic 1-10u^3+15u^4-6u^5 in between, and the reported derivative is its exact derivative. Value and derivative join without a jump at both radii. The weighted inverse distance is that switch divided by the distance and is 0 at distance 0; the moment-tensor distance scaling maps the two radii linearly to -1 and 1 with its exact slope.',
  over=['inputs'], text='all real radii with 0 <= inner < cutoff, all distances >= 0 (the moment-tensor variants: distances from the inner radius on)',
  why='Three independent implementations, each a polynomial on a continuum of triples; ' + TESTS,
  files=['source/descriptor/deepmd/include/se.h', 'source/descriptor/mtp/include/mtpMRadial.h', 'source/descriptor/mtpr/include/basis.h'],
  mech=[('switching functions and derivatives', 'SwitchFunc, MtpSwitchFunc1/2, SwitchFunction'), ('inverse distance', 'recip, smooth_func')],
  technique=TC, level='proof', note='real arithmetic instead of floating point; clang front end and solvers trusted'),
 dict(id='C02', title='Chebyshev radial bases satisfy the recurrence and its derivative',
  statement='For every number of basis functions, radii and distance, the radial basis values are the Chebyshev polynomials of the distance scaled to [-1,1], times the cutoff weight where the basis is a weighted one, and they vanish from the cutoff on where weighted. Each reported derivative is the exact derivative of the corresponding value with respect to the distance.',
  over=['inputs'], text='all basis sizes, radii and distances',
  why='Unbounded basis size and continuous arguments; ' + TESTS,
  files=['source/descriptor/mtp/include/mtpMRadial.h', 'source/descriptor/mtpr/include/basis.h'],
  mech=[('recurrences', 'ChebyshevPoly::build, RB_Chebyshev::build, RQ_Chebyshev::build, MtpQ::build')],
  technique=TC, level='proof', note='loop invariants for an arbitrary number of basis functions; real arithmetic'),
 dict(id='C03', title='The environment matrix puts each neighbour once, exact, in its type block',
  statement='For every neighbour list that fits the per-type capacities, each neighbour of each centre fills exactly one slot - inside the block of its type, in list order - with switch/r and the three weighted direction components, and with their exact derivatives with respect to its position (centre position for the type-blocked variant, which also returns the displacement). All slots beyond the neighbours of a type are 0, and in the owner-index table the slots hold the neighbour index modulo the number of owned atoms, or -1 where there is no neighbour. Nothing outside the output arrays is touched.',
  over=['inputs'], text='all numbers of centres, types, capacities, neighbour lists, coordinates and radii within the stated preconditions',
  why='Array index arithmetic and eleven derivative formulas over unbounded neighbour lists; ' + TESTS,
  files=['source/descriptor/deepmd/include/envMatrix.h', 'source/descriptor/deepmd/include/se4pw.h', 'source/descriptor/deepmd/include/se.h'],
  mech=[('slot arithmetic and formulas', 'EnvMatrix::find_value_deriv, Se4pw::generate, Se4pw::get_prim_indices_from_matersdk')],
  technique=TC, level='proof', note='callees enter through the contracts proved in C01; ghost prefix sums and counts with inductive lemmas; real arithmetic; the torch wrappers are outside'),
 dict(id='C04', title='3-vector algebra and tensor powers are exact',
  statement='Comparison, addition, subtraction, scaling, division, dot, cross, norm, normalisation and indexing of 3-vectors return the mathematical result for every argument, leave their operands unchanged, and compound forms agree with the plain ones. The repeated outer product of a vector returns every component of its tensor power.',
  over=['inputs'], text='all component values; tensor orders 1 to 4',
  why='Continuum of inputs and 3^n components; ' + TESTS,
  files=['source/core/include/vec3Operation.h', 'source/core/include/vecx.h'],
  mech=[('vector operators', 'Vec3, Vec4, vec3Operation'), ('outer product recursion', 'RecursionOuterProduct')],
  technique=TC, level='proof', note='tensor power: orders 1-4 only (template recursion instantiated per order); real arithmetic'),
 dict(id='C05', title='Supercells contain every lattice translate once and track the original cell',
  statement='For every structure and every positive scaling along the three axes, the expanded structure holds n*sx*sy*sz atoms; atom P of cell (A,B,C) is atom P of the input moved by whole lattice vectors, cells in lexicographic order around the input cell, species repeated likewise, and box vectors and origin scaled accordingly. The supercell reports the index of the original cell, and its owned-atom indices point at the unmoved copies of atoms 0..n-1 in order. Construction from fractional or Cartesian coordinates stores exactly the Cartesian positions.',
  over=['inputs'], text='all atom counts, scalings >= 1 of either parity, lattices, coordinates and species',
  why='Unbounded atom counts and scaling factors, different code paths for even and odd factors; ' + TESTS,
  files=['source/nblist/include/structure.h', 'source/nblist/include/binLinkedList.h'],
  mech=[('expansion', 'Structure::make_supercell'), ('bookkeeping', 'Supercell::calc_prim_cell_idx, calc_prim_cell_idx_xyz, calc_owned_atom_idxs'), ('construction', 'Structure::Structure, calc_cart_coords')],
  technique=TC, level='proof', note='index arithmetic mathematical (no int overflow); real arithmetic instead of floating point; malloc succeeds'),
 dict(id='C06', title='Cell geometry: plane spacings, extents, vertices and bounding box are exact',
  statement='For every non-degenerate cell, including rotated, skewed and left-handed ones, the inter-planar distance along each axis is the distance of the lattice planes spanned by the other two vectors, the projected lengths are the extents of the cell along x, y and z, the eight vertices are the corner points, and the bounding box is their component-wise minimum and maximum and contains every point of the cell. The structure-info record repeats exactly these values.',
  over=['inputs'], text='all real 3x3 lattices with linearly independent vectors and all origins',
  why='Six real degrees of freedom with sign and orientation case splits; ' + TESTS,
  files=['source/nblist/include/structure.h'],
  mech=[('geometry', 'Structure::get_projected_lengths, get_interplanar_distances, get_vertexes, get_limit_xyz'), ('record', 'BasicStructureInfo')],
  technique=TC, level='proof', note='real arithmetic instead of floating point; malloc succeeds'),

 dict(id='C07', title='The C++ neighbour list holds every image within the cutoff exactly once',
  statement='For every structure with fractional coordinates in [0,1), any cell (skewed, rotated, left-handed), any periodicity per axis, any positive cutoff and bin sizes: the neighbours listed for atom i are exactly the images of all atoms (of itself too), translated along periodic axes only, with 0.001 < d^2 < rcut^2, each once, in whatever bins they fall; with sorting on, in order of distance. Every atom sits in exactly one chain of the bin grid and no access leaves its block.',
  over=['inputs'], text='all lattices, atom counts, coordinates, cutoffs, bin sizes and periodicities',
  why='Completeness over all cells and cutoffs, including cutoffs larger than the cell; ' + TESTS,
  files=['source/nblist/include/binLinkedList.h', 'source/nblist/include/neighborList.h'],
  mech=[('grid and chains', 'BinLinkedList::BinLinkedList, _build, get_bin_idx'), ('neighbour bins', 'get_num_neigh_bins, get_neigh_bins'), ('neighbours', 'get_neigh_atoms, NeighborList::_build')],
  technique=TC, level='proof', note='Structure and Supercell enter through the contracts of C05/C06; real arithmetic; numbers of atoms fixed in the proof of NeighborList::_build, std::sort through its documented meaning'),
 dict(id='C08', title='Neighbour tables repeat the lists, padded; maxima are right',
  statement='For every neighbour list and every capacity at least the largest count, find_info4mlff (C++ and the Python module nblist) returns the number of atoms, atoms 0..n-1 in order with their species and neighbour counts, per atom its neighbours in list order as indices into the original cell with their displacement from the atom, then -1 and zero displacement up to the capacity, and no ghost atoms; the arrays of the Python module own their memory. The largest neighbour counts, over all atoms or for a pair of species, are the maxima over the lists (0 without such atoms).',
  over=['inputs'], text='all numbers of atoms, lists, capacities, coordinates and species',
  why='Flat index arithmetic over unbounded ragged lists; ' + TESTS,
  files=['source/nblist/include/neighborList.h', 'source/nblist/bind/nblist_bind.cc'],
  mech=[('tables', 'NeighborList::find_info4mlff, find_info4mlff (SWIG)'), ('maxima', 'get_max_num_neigh_atoms, get_max_num_neigh_atoms_ssss')],
  technique=TC, level='proof', note='lists enter through the contract of C07; std::count through its documented meaning; the SWIG wrapper is bounded only (compiled and run)'),
 dict(id='C09', title='C++ objects copy, assign, move and release their memory soundly',
  statement='For every object of the classes Structure, BasicStructureInfo, Supercell, BinLinkedList, NeighborList, PairTildeR, TildeR, RB_Chebyshev, RQ_Chebyshev, ChebyshevPoly, MtpQ and MtpParam, in whatever state its constructors and methods left it: a copy, or the target of an assignment, has the same value as the source in every field and array element, shares no memory with it, and stays intact when the source is changed or destroyed; the source is unchanged. Assigning an object to itself changes nothing. Moving (where offered) hands the value over and leaves the source destructible. Assignment releases the old contents, the destructor releases everything the object owns, nothing is released twice or used after release; default-constructed objects can be copied, assigned from and to, and destroyed.',
  over=['inputs', 'histories'], text='all sizes and contents (lists of the neighbour list: any lengths, for 1 and 2 atoms); sequences of operations by induction over single operations',
  why='Ownership errors show only for particular sequences of operations and sizes, often without a visible effect; ' + TESTS,
  files=['source/nblist/include/structure.h', 'source/nblist/include/binLinkedList.h', 'source/nblist/include/neighborList.h', 'source/descriptor/deepmd/include/se.h', 'source/descriptor/mtp/include/mtpMRadial.h', 'source/descriptor/mtpr/include/basis.h', 'source/descriptor/mtpr/src/mtpParam.cc'],
  mech=[('copy', 'copy constructors, operator=(const T&)'), ('move', 'move constructors, operator=(T&&)'), ('release', 'destructors')],
  technique=TC, level='proof', note='per class and operation from an arbitrary well-formed state with at least one element; the numbers of atoms of NeighborList, PairTildeR and TildeR are 1 and 2 in the proof; random operation sequences under AddressSanitizer are bounded'),
 dict(id='C10', title='Python supercells hold every translate once, sorted by species on request',
  statement='For every structure and every odd positive scaling, the expanded DStructure holds each atom of the cell once per lattice translate, with the species of the original, at its position plus whole lattice vectors; the unmoved cell comes first and the other cells follow in lexicographic order. On request (the default) all sites are then stably sorted by ascending atomic number, coordinates moving along. The key-index query returns, for atoms 0..n-1 of the sorted cell, the positions of their unmoved copies in the sorted supercell, and the index map sends each sorted site to its position in the unsorted list. The input structure is unchanged.',
  over=['inputs'], text='all atom counts, species, coordinates, lattices, odd scalings',
  why='Unbounded structures and scalings, index arithmetic through reshapes, masks and stable sorts; ' + PYTESTS,
  files=['matersdk/io/publicLayer/structure.py'],
  mech=[('expansion', 'DStructure.make_supercell_'), ('ordering', 'DStructure.reformat_elements_'), ('index bookkeeping', 'DStructure.get_key_idxs, DStructure._get_bidx2aidx_supercell')],
  technique=TP, level='proof', note='contract of pymatgen Structure assumed; real arithmetic; numpy functions enter through their documented meaning'),
 dict(id='C11', title='Python neighbour tables hold every atom within the cutoff, nearest first',
  statement='For every structure, odd scaling and cutoff, the neighbour table has one row per atom of the cell and is as wide as the largest number of supercell atoms within the cutoff of a centre (a distance of exactly the cutoff included); each such atom fills exactly one slot with its species, distance and coordinates, slots are in ascending distance starting with the centre itself, all other slots are 0. The capacity queries return exactly the largest neighbour counts, over all atoms and per element, the centre not counted. The index table for ordered species lists holds, per centre and neighbour species block, the 1-based cell index of each neighbour in slot order and 0 elsewhere.',
  over=['inputs'], text='all atom counts, species, coordinates, cutoffs; merged index tables proved for up to 3 x 3 species',
  why='Unbounded atom counts, sorting and masking; ' + PYTESTS,
  files=['matersdk/io/publicLayer/neigh.py'],
  mech=[('table', 'StructureNeighborsV1._get_key_neighs_info'), ('capacities', 'StructureNeighborsUtils.get_max_num_nbrs_real, get_max_num_nbrs_real_element'), ('index table', 'StructureNeighborsUtils._get_nbrs_indices, get_nbrs_indices')],
  technique=TP, level='proof', note='supercell and site lookup enter through contracts (C10, C24); contract of pymatgen Structure assumed; real arithmetic; sorted-prefix lemma proved in Lean'),
 dict(id='C12', title='Feature pairs select exactly the neighbours of the asked species',
  statement='For every neighbour table and every ordered pair (centre species, neighbour species), the extracted table has one row per centre of that species, in table order, as wide as the largest number of matching neighbours; each matching neighbour fills one slot, in table order, with its species, distance and position relative to the centre, and all other slots are 0. Expansion to a larger width keeps the entries and pads with 0. The input tables are not changed.',
  over=['inputs'], text='all table sizes, species, distances and coordinates',
  why='Unbounded tables with arbitrary species patterns; ' + PYTESTS,
  files=['matersdk/feature/deepmd/premise.py'],
  mech=[('selection', 'DpFeaturePairPremiseV1.extract_feature_pair'), ('padding', 'DpFeaturePairPremiseV1.expand_rc')],
  technique=TP, level='proof', note='real arithmetic; numpy functions enter through their documented meaning'),
 dict(id='C13', title='Python smooth descriptor and its derivatives are exact',
  statement='For every pair table and radii rcut_smooth < rcut, s is the switch (1, quintic, 0 from the cutoff on) divided by the distance and 0 for padded slots; tildeR holds s and s times the three direction components; the reported derivatives are the exact partial derivatives of those four entries with respect to the position of the centre, 0 for padded slots; padding to a requested width keeps the entries and adds 0. The assembled feature of a structure puts, per centre species in the given order and per neighbour species in the given order, exactly these blocks.',
  over=['inputs'], text='all pair tables, radii, widths; assembly proved for up to 2 x 2 species',
  why='Twelve derivative formulas over a continuum with three regimes; ' + PYTESTS,
  files=['matersdk/feature/deepmd/se_pair.py', 'matersdk/feature/deepmd/se.py'],
  mech=[('switch and tildeR', 'DpseTildeRPairV1._get_s, _get_tildeR, get_tildeR'), ('derivative', 'DpseTildeRPairV1._calc_derivative, calc_derivative'), ('assembly', 'DpseTildeR.get_tildeR')],
  technique=TP, level='proof', note='real arithmetic; neighbour pairs enter through the contract of C12; assembly proved per number of species'),
 dict(id='C14', title='The crystal-graph adjacency matrix counts periodic neighbours exactly',
  statement='For every structure, cutoff and odd positive scaling, entry (i,j) of the adjacency matrix is the number of translates of atom j within the scaled cell around the original one that lie within the cutoff of atom i (a distance of exactly the cutoff included), the atom itself not counted on the diagonal; the matrix is n x n and symmetric. Even and non-positive scaling factors are rejected.',
  over=['inputs'], text='all atom counts, coordinates, lattices, cutoffs and odd scalings',
  why='Unbounded atom counts and translate sets, broadcasting index arithmetic; ' + PYTESTS,
  files=['matersdk/feature/graph/edge.py'],
  mech=[('translates', 'AdjacentMatrix._get_shifted_supercell_frac_coords'), ('counting', 'AdjacentMatrix.get_adjacent_matrix'), ('argument check', 'AdjacentMatrix.__init__')],
  technique=TP, level='proof', note='contract of pymatgen Structure assumed; real arithmetic; numpy functions enter through their documented meaning'),
 dict(id='C24', title='Structure queries and edits find and change exactly the sites they name',
  statement='For every DStructure: the site lookup returns the 1-based index of the first atom from which the given point differs by a lattice vector (up to 1e-10 in fractional coefficients) and 0 if there is none; atom counts give the total first and then one count per species, in ascending order of atomic number or in the order asked for; the centroid is the mean position; a direction has vacuum if the cell length exceeds the extent of the atoms by more than 10; forces and energies are returned per site in site order; regrouping by a list of elements keeps species, coordinates and magnetic moments together and the order within an element; removing vacancies removes exactly the vacancy sites.',
  over=['inputs'], text='all atom counts, species, coordinates and lattices with linearly independent vectors',
  why='Unbounded structures, rounding-sensitive search and in-place edits; ' + PYTESTS,
  files=['matersdk/io/publicLayer/structure.py'],
  mech=[('queries', 'DStructure.get_site_index, get_natoms, get_centroid, judge_vacuum_exist, get_atomic_force, get_atomic_energy'), ('edits', 'DStructure.reformat_elements, remove_vacanies')],
  technique=TP, level='proof', note='contract of pymatgen Structure assumed; real arithmetic; numpy functions enter through their documented meaning'),
 dict(id='C15', title='Values read from atom.config and MOVEMENT files are the values written there',
  statement='For every complete PWmat structure or trajectory file: atom count, species, fractional coordinates, lattice, magnetic moments, forces, atomic energies, virial and energies returned for a frame are the numbers on the lines of that frame, atom by atom in file order, whatever optional blocks precede them; frames are split at the dashed lines with no line lost or shared; per-frame and all-frames readers agree, and labels name the fields in the order returned. A missing block is reported (or zeros are returned where documented), and what is read is always the current file.',
  over=['inputs', 'histories'], text='all line counts, frame counts, atom counts and numbers; files rewritten between reads',
  why='Files of unbounded length with optional blocks and several header formats; ' + PYTESTS,
  files=['matersdk/io/pwmat/utils/acextractor.py', 'matersdk/io/pwmat/utils/mvextractor.py', 'matersdk/io/pwmat/utils/lineLocator.py', 'matersdk/io/pwmat/output/movement.py'],
  mech=[('line location', 'LineLocator, ListLocator'), ('fields of one structure', 'ACExtractor, ACstrExtractor'), ('frames', 'MVExtractor, Movement')],
  technique=TP, level='proof', note='a text file is modelled as lines of tokens, int()/float() of a token is its value; regular-expression header match and file caching bounded only'),
 dict(id='C22', title='Trajectory averages are the averages of their definition',
  statement='For every trajectory: the mean bond length of a frame pair type is the arithmetic mean of the listed centre-neighbour distances of those two species, the mean-square displacement is, for each pair of consecutive frames in order, the mean over atoms of the squared displacement between them (of the displacement relative to the centroids in the centroid variant), the diffraction intensity is exp(-q^2 MSD/3) of it, and frame averages are taken per frame, in order; bond angles are formed between two different neighbours of one centre and lie in [0, 180] degrees, collinear ones included.',
  over=['inputs'], text='all frame and atom counts, neighbour tables, coordinates and lattices',
  why='Unbounded sums over frames, atoms and neighbours; ' + PYTESTS,
  files=['matersdk/feature/avg/avgbond.py', 'matersdk/feature/avg/avgangle.py', 'matersdk/feature/avg/msd.py'],
  mech=[('averages', 'AvgBond, PairBond, Msd, DiffractionIntensity'), ('angles', 'AvgAngle (bounded)')],
  technique=TP, level='proof', note='bond angles and the angle-filtered bond list are bounded only; contracts of the neighbour tables from C11; real arithmetic'),
 dict(id='C16', title='Structures survive writing to atom.config and reading back',
  statement='For every structure, writing it in PWmat format and reading the file (or its text) back gives the same number of atoms in the same order, the same species, the fractional coordinates to 6 decimals, the lattice to 7 significant digits and, if written, the magnetic moments to 2 decimals. Atomic numbers and element symbols convert into each other correctly for every element. Other formats are read from exactly the path given.',
  over=['inputs', 'histories'], text='all atom counts, species, coordinates and lattices',
  why='Writer and reader must agree on line and column positions for every structure size and element; ' + PYTESTS,
  files=['matersdk/io/publicLayer/structure.py', 'matersdk/io/pwmat/utils/acextractor.py', 'matersdk/io/pwmat/utils/parameters.py'],
  mech=[('writer', 'DStructure.to'), ('readers', 'DStructure.from_file, DStructure.from_str, ACExtractor, ACstrExtractor'), ('tables', 'atomic_number2specie, specie2atomic_number')],
  technique=TP, level='proof', note='the written text is a list of literal and formatted parts, a number printed with p digits is within half a unit of the last digit; pymatgen Structure and the heading search (proved in C15) enter through contracts'),
 dict(id='C17', title='Data sets hold every frame of every file exactly once, in order',
  statement='Collecting a directory reads every file of the given name (in any case) below it and no other; one data set per chemical formula holds the frames of all files of that formula, file after file in the order found, with cell, coordinates, energy, forces and (only where every file of the formula has them) virial, atomic energies and magnetic moments as written there; types are positions in the union of the elements over all files, in order of first appearance, and formula, composition and frame count are those of the set. Storing with a part size writes the element list and parts 0, 1, ... of that many frames each (the last one what is left, no empty part), frame k*size+j in row j of part k; what is already stored there is not overwritten.',
  over=['inputs', 'histories'], text='all frame counts, atom counts, part sizes and values; file collections up to 4 files in the proof',
  why='Unbounded frame counts, part boundaries, files in any combination; ' + PYTESTS,
  files=['matersdk/data/infoset.py', 'matersdk/data/infosets.py'],
  mech=[('one file', 'InfoSet.from_file'), ('many files', 'InfoSets.from_dir, get_num_frames'), ('storage', 'InfoSet.to_dir, InfoSets.to_dir')],
  technique=TP, level='proof', note='MVExtractor enters through its contract (C15), os.walk and np.save through their documented meaning; merging proved for given combinations of up to 4 files with any frame counts; reading without an element list bounded only'),
 dict(id='C18', title='k-point meshes, IN.KPT data and k-path files follow the reciprocal lattice',
  statement='The mesh for a density is, per direction, the integer nearest to |b|/(2 pi density), at least 1, and 1 across vacuum or for density 0. The irreducible points of a mesh and their number are those of the symmetry analysis of the given structure for the given mesh, shift and tolerances. From IN.KPT come the number of points, flags, fractional coordinates, weights and labelled points line by line in file order (of the current file); Cartesian coordinates are fractional coordinates times the reciprocal lattice of the given structure (times 0.529177249 in Bohr); the abscissa of a band plot grows by the distance between consecutive points and does not grow where one path ends and the next begins. A k-path keeps the points and paths of the lattice in order, Gamma named G, in 2 dimensions only the points with third coordinate 0 and paths of two or more of them; HIGHK lists every point, gen.kpt every segment with its end points and the smallest integer number of points whose spacing is at most the density, in a file that replaces an older one.',
  over=['inputs', 'histories'], text='all lattices, densities, numbers of points and coordinates; path networks of given shapes in the proof',
  why='Unbounded point lists, non-orthogonal lattices, path breaks; ' + PYTESTS,
  files=['matersdk/calculation/kpoints/kmesh.py', 'matersdk/calculation/kpoints/kpointsSampler.py', 'matersdk/io/pwmat/input/inkpt.py', 'matersdk/calculation/kpath/kpathSampler.py'],
  mech=[('mesh', 'KMesh.get_kmesh, KPointsSampler'), ('IN.KPT', 'Inkpt'), ('paths', 'KpathSampler')],
  technique=TP, level='proof', note='pymatgen lattices and path tables enter as contracts; the abscissa is proved for given numbers of paths and labels with any numbers of points; real arithmetic'),
 dict(id='C19', title='Eigen energies, metal test, band edges and gap come from REPORT and OUT.FERMI',
  statement='Of the current REPORT: the number of bands, of k-points and the name of the structure file are those of its NUM_BAND, NUM_KPT and IN.ATOM lines; the eigen energies per spin are every energy listed, k-point by k-point in file order (no second channel without spin). The Fermi level is that of OUT.FERMI, to 3 decimals. A system is a metal exactly if in some spin channel some band has energies more than the tolerance below and above the Fermi level; a metal has no band edges (None). The conduction (valence) edge is the lowest (highest) energy at or above (at or below) the Fermi level, the first in order of spin, k-point, band, numbered from 1, followed once each by the states of the same k-point within 0.001 eV; the gap is the difference of the edges, direct exactly if both lie at the same k-point.',
  over=['inputs', 'histories'], text='all files of the format; all energies, numbers of k-points, Fermi levels and tolerances; numbers of bands as listed in the proof',
  why='Energies, degeneracies and spin channels a test does not sample; ' + PYTESTS,
  files=['matersdk/io/pwmat/output/report.py', 'matersdk/io/pwmat/output/outfermi.py'],
  mech=[('REPORT', 'Report'), ('Fermi level', 'OutFermi.get_efermi')],
  technique=TP, level='proof', note='eigen energies and metal test: any number of k-points for given numbers of bands; band edges: all energies for given small numbers of k-points and bands, larger ones bounded; get_bandgap_type bounded; real arithmetic'),
 dict(id='C20', title='Perturbed structures: deformed by one matrix, displaced atom by atom, rotated',
  statement='For every structure with a right-handed cell: perturb returns the number of structures asked for; each is the original with cell and atoms deformed by one symmetric matrix of its own (diagonal within the fraction of 1, off-diagonal within half the fraction of 0, each of the six entries from its own random number over the whole range), each atom then displaced by a random vector of its own (normal, variance distance^2/3 per component), and the whole rotated rigidly so that the cell is lower triangular with positive diagonal; order and species of the atoms are kept and the original structure is left alone. Negative fractions or distances raise RuntimeError. Batch perturbation reads atom.config of each directory and writes its k-th structure to structures/k.config there.',
  over=['inputs'], text='all lattices, coordinates, fractions, distances and random numbers; numbers of copies and atoms as listed in the proof',
  why='Holds for every random draw; ' + PYTESTS,
  files=['matersdk/adalearn/generator/perturbation.py'],
  mech=[('draws', 'get_cell_perturb_matrix, get_atom_perturb_vector'), ('copies', 'PerturbStructure.perturb'), ('rotation', 'rot_lower_triangular'), ('files', 'BatchPerturbStructure.batch_perturb')],
  technique=TP, level='proof', note='np.linalg.qr enters through its documented meaning; numbers of copies, atoms and directories fixed in the proof of perturb and batch_perturb, larger ones bounded'),
 dict(id='C23', title='gen.vext, DOS.input and Slurm scripts carry the values they were given',
  statement='Each written file has the lines its reader expects, in order, every value on its own place as printed: gen.vext its four settings with flag T exactly if the field is added; DOS.input its five lines, numbers of the given flags, smearing (five decimals) and mesh, or the default settings; a Slurm script starts with the shell line, has every #SBATCH option once on a line of its own with the value of that option and then the command.',
  over=['inputs'], text='all values of the settings',
  why='Line structure and value placement for all values; ' + PYTESTS,
  files=['matersdk/io/pwmat/input/gen_vext.py', 'matersdk/io/pwmat/input/dos_input.py', 'matersdk/hpc/slurm/job.py'],
  mech=[('writers', 'GenVext.to, DosInput.to, Job.to')],
  technique=TP, level='proof', note='the written text is a list of literal and formatted parts'),
 dict(id='C25', title='Density-of-states tables and fat bands are those of the file, summed per element',
  statement='For every DOS file (header of column names, with or without a leading #, then rows), the total table holds energy and total density, the orbital table energy and every orbital column, and the element table energy and, for each element once, the sum of the columns of exactly that element (the part of the name before the dash: S is not Si), row by row in file order; the file itself is left as it is, and each object works on a copy of its own that goes with the object, also while other objects of the same file live. For every fat-band file of two or more bands, the numbers of bands and k-points and the elements are those of the file, and the tables (all columns; per element the sum of its columns; one orbital, asked for in any case, and none of another element) hold one part per band with the rows of that band in order, k-point distances divided by 0.529177249.',
  over=['inputs', 'histories'], text='all numbers of rows, bands and k-points and all values; column names as listed in the proof',
  why='Which columns belong to an element depends on all the other names, and rows must stay in their band for every size; ' + PYTESTS,
  files=['matersdk/io/pwmat/output/dostotalspin.py', 'matersdk/io/pwmat/output/fatabandstructureTxt.py'],
  mech=[('DOS', 'Dostotalspin'), ('fat bands', 'FatbandStructure')],
  technique=TP, level='proof', note='pandas enters through a table model (assumed); headers of five given sets of elements with any numbers of rows and any values, other headers bounded; FatbandStructure._preprocess for given numbers of bands and k-points'),
 dict(id='C26', title='C++ PairTildeR and TildeR hold every neighbour\'s features and their derivatives',
  statement='For every neighbour list, pair of species, width that holds the neighbours of that species, cutoff and smaller inner radius, PairTildeR (static and object form) returns one row per centre atom of the centre species, in list order, as wide as asked; slot j of a row holds, for the j-th neighbour of the neighbour species, the switched inverse distance s and s*x/r, s*y/r, s*z/r of the displacement from centre to neighbour, and the derivative array holds the exact partial derivatives of these four with respect to the position of the centre; all further slots are 0. TildeR (static, into a given array, and object form) stacks these blocks: rows by centre species in the order asked, columns by neighbour species in the order asked, each block equal to the PairTildeR of its pair of species; every cell is written and nothing outside. The widths and counts TildeR works out by itself are the largest number of neighbours and the number of centres of each species.',
  over=['inputs'], text='all list sizes, neighbour counts, species, numbers of species, widths, coordinates, radii',
  why='Slots depend on counts of earlier neighbours and of earlier species over unbounded lists, and sixteen closed formulas must agree with their derivatives everywhere; ' + TESTS,
  files=['source/descriptor/deepmd/include/se.h', 'source/core/include/arrayUtils.h', 'source/core/include/vec3Operation.h'],
  mech=[('one pair of species', 'PairTildeR::generate, PairTildeR::deriv (object and static), calc_num_center_atoms'), ('all species', 'TildeR::generate, TildeR::deriv (object, static, into an array)'), ('inferred sizes', 'TildeR::calc_num_center_atoms_lst, calc_num_neigh_atoms_lst, get_num_center_atoms, get_num_neigh_atoms')],
  technique=TC, level='proof', note='the switching functions enter through their contract (C01), neighbour lists and supercells through theirs (C06, C07); real arithmetic'),
 dict(id='C27', title='DeepPot-SE features are normalised by the statistics of the data set',
  statement='For every set of structures chosen (a structure chosen twice counts twice), centre species, neighbour species with their widths, cutoff and smaller inner radius, the normaliser of a data set holds, for each centre species in the order asked, the average of the first feature (the other three averages are 0) and the standard deviations of the first feature and of the other three taken together, over all slots of all chosen structures, padded slots included; a deviation below 0.01 is 0.01 and none is ever NaN. normalize returns for a structure the features minus the average over the deviation, and the derivatives over the deviation, of its pair descriptors: rows by centre species, columns by neighbour species, in the order asked, each centre with its own statistics; what is handed in is not changed. All parameters written to a file come back as they were.',
  over=['inputs', 'histories'], text='all array sizes and values, deviations at or above 0.01; lists of species as listed in the proof',
  why='The statistics are sums over arrays of any size, and blocks and statistics must go together for every list of centre and neighbour species; ' + PYTESTS,
  files=['matersdk/feature/deepmd/preprocess.py'],
  mech=[('statistics', 'TildeRPairNormalizer.calc_stats, _calc_std, NormalizerPremise.concat_tildeRs4calc_stats, TildeRNormalizer.calc_stats'), ('normalisation', 'TildeRPairNormalizer.normalize, normalize_derivative, TildeRNormalizer._normalize, normalize'), ('file', 'TildeRNormalizer.to, from_file')],
  technique=TP, level='proof', note='pair descriptors and neighbour lists enter through their contracts (C11-C13), h5py as a store of named values (assumed); lists of up to three species and three structures, any array sizes and values; the sum of squares times the number is at least the square of the sum (Cauchy-Schwarz, assumed where the deviation is formed); real arithmetic'),
 dict(id='C28', title='Collections of frames keep frames with their data and export them in sets',
  statement='For every collection of frames of the same atoms: its species are those of the atoms, each once in order of appearance, with their numbers of atoms; a slice and from_indices (indices may repeat) hold exactly the frames asked for, in the order asked, each with its own structure, total, potential and kinetic energy and virial. to writes the type number of every atom and, for set_size frames per set, sets numbered from 0, set k holding frames k*set_size up to the next set (the last one the rest), row by row: cell, Cartesian coordinates, total energy, forces, virials if any virial of the collection is not 0, atomic energies if any is not 0; a directory that exists is replaced. The largest neighbour counts, in all and per element, are the largest over all frames.',
  over=['inputs'], text='all numbers of frames, set sizes, indices, values; lists of species as listed in the proof',
  why='Splitting must be right for every number of frames and set size, and one value anywhere decides which files exist; ' + PYTESTS,
  files=['matersdk/data/struct_collection.py'],
  mech=[('parts', 'StructCollection.__getitem__, from_indices'), ('export', 'StructCollection.to'), ('counts', 'StructCollection._get_atomic_numbers, _get_num_atoms_per_element, get_max_num_nbrs_real, get_max_num_nbrs_real_element, ParallelFunction')],
  technique=TP, level='proof', note='pymatgen structures as records, multiprocessing.Pool.starmap as a list comprehension in order (assumed); neighbour counts of one frame by contract (C11); save_all_info is not covered'),
]
NA = []
