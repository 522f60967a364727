prop("C01", "The cell shapes of a size are complete and inequivalent",
     "For every crystal (lattice plus atomic basis) and every cell size n, the shapes returned are Hermite normal "
     "forms of index n that represent each class of index-n superlattices, under the rotations of the crystal's "
     "space group, exactly once. The list of all superlattices of index n, before symmetry is taken out, holds each "
     "of them exactly once.",
     "All lattices of the 14 Bravais types (skewed and rotated cells too), bases of up to 5 sites, all sizes.",
     "The tests compare a few crystals (mostly cubic, one site) with stored lists; rotations that permute several "
     "basis sites, low symmetries and larger sizes are never compared with an independent count.",
     ["phenum/HNFs.py", "phenum/symmetry.py"],
     [("get_HNFs / find_all_HNFs", "phenum/HNFs.py"), ("basis permutations of the rotations", "phenum/HNFs.py")],
     technique="generated crystals against a reference space group and orbit partition in integer arithmetic",
     note="Sizes up to 8 for the symmetry classes and up to 60 for the full list; crystals of up to 5 sites.")

prop("C02", "The symmetry operations found are exactly the space group",
     "For every lattice the point group found holds exactly the orthogonal maps that keep it, and for every crystal "
     "with atoms of one or several kinds the space group found holds exactly the rotations and translations "
     "(modulo the lattice) that map the crystal onto itself, each once. This holds for cells in any "
     "orientation, scale or choice of lattice vectors and for sites given inside or outside of the cell, in Cartesian or "
     "lattice coordinates.",
     "All Bravais types, skewed, rotated and scaled cells, bases of up to 5 sites and 2 kinds of atoms.",
     "The tests hold stored results for a few crystals; missing or spurious operations for other lattices, "
     "non-symmorphic groups or mixed kinds of atoms are not looked at.",
     ["phenum/symmetry.py"],
     [("get_lattice_pointGroup", "phenum/symmetry.py"), ("get_spaceGroup", "phenum/symmetry.py"),
      ("bring_into_cell", "phenum/symmetry.py")],
     technique="generated crystals against the exact space group from the integer Gram matrix and rational sites",
     note="Crystals whose sites are rational with small denominators; tolerance effects are out of scope.")

prop("C03", "Smith normal forms are right and the transforms unimodular",
     "For every lower triangular integer matrix H with positive diagonal, the S, L and R returned are integer matrices "
     "with L.H.R = S, L and R of determinant +1 or -1, and S diagonal, positive, each diagonal entry dividing the next.",
     "All Hermite normal forms.",
     "The tests check a handful of matrices; the reduction branches on signs and remainders of the entries.",
     ["phenum/grouptheory.py"],
     [("SmithNormalForm", "phenum/grouptheory.py")],
     technique="generated Hermite normal forms, the defining equations checked in exact integers",
     note="Diagonal entries up to 40.")

prop("C04", "The permutation group of a supercell is exactly its symmetry",
     "For every crystal and superlattice, the permutations of the supercell's sites found (together with the "
     "permutations of the six displacement directions when displacements are asked for) are exactly those "
     "induced by the space group operations that keep the superlattice, the translations of the parent lattice included, each listed "
     "once.",
     "All crystals and all superlattices (any Hermite normal form, not only the representatives).",
     "The tests compare a few cubic supercells with stored groups; the size of a group cannot show that it is the "
     "right one.",
     ["phenum/grouptheory.py", "phenum/symmetry.py"],
     [("get_sym_group", "phenum/grouptheory.py"), ("_get_rotation_perms_lists", "phenum/grouptheory.py"),
      ("_get_dvector_permutations", "phenum/grouptheory.py"), ("a_group", "phenum/grouptheory.py")],
     technique="generated crystals and supercells against the exact group of site and arrow permutations",
     note="Supercells of up to 64 sites; displacements only for crystals whose rotations permute the Cartesian axes.")

prop("C05", "Polya counts equal the number of inequivalent arrangements",
     "For every permutation group (sites numbered from 0 or from 1) and all concentrations (zeros included), with any number of the last listed "
     "species carrying displacement directions on all of their atoms, the count returned is exactly the number of "
     "orbits of arrangements under the group, as an integer of any size.",
     "All permutation groups on sites with their action on the six directions, all concentrations.",
     "The tests hold stored counts for a few groups; overflow, zero concentrations and several displaced species at "
     "once are not covered.",
     ["phenum/polyaburnside.py", "phenum/numerics.py"],
     [("polya", "phenum/polyaburnside.py"), ("_group_to_cyclic", "phenum/polyaburnside.py")],
     technique="generated groups, supercells and concentrations against exact Burnside sums and brute-force orbits",
     note="Random groups of up to 9 points and 400 operations, cyclic groups of up to 160 points.")

prop("C06", "Full enumeration finds every inequivalent colouring once",
     "For every crystal, superlattice and concentration, asking for all arrangements returns exactly one member of "
     "each symmetry class of labelings with the requested number of atoms of each species, and nothing else; with "
     "superperiodic structures excluded, exactly those classes that no shorter translation of the parent lattice maps "
     "onto themselves.",
     "All crystals, superlattices and concentrations of any number of species, zero concentrations included.",
     "The tests compare a few supercells with stored lists made by the same code.",
     ["phenum/phonons.py", "phenum/tree.py", "phenum/grouptheory.py"],
     [("enum_sys", "phenum/phonons.py"), ("brancher, _perm, _hash, _invhash", "phenum/tree.py")],
     technique="generated crystals, supercells and concentrations against brute-force orbits under the exact symmetry",
     note="Supercells of up to 12 sites and 6000 labelings.")

prop("C07", "Full enumeration finds every displaced arrangement once",
     "For every crystal, superlattice and concentration in which a fraction of the atoms of some species is displaced "
     "along one of the six Cartesian directions, asking for all arrangements returns exactly one member of each "
     "symmetry class of labelings with displacements (positions, species and directions transformed together). The "
     "number of displaced atoms of a species is the whole part of its fraction times its number of atoms, and with "
     "superperiodic structures excluded exactly those classes that a shorter translation keeps, directions included, "
     "are left out.",
     "All crystals whose rotations permute the Cartesian axes, all superlattices, concentrations and displaced "
     "fractions.",
     "The tests compare a few single-site cubic cells with stored lists; partly displaced species, several displaced "
     "species and multi-site cells are hardly touched.",
     ["phenum/phonons.py", "phenum/tree.py", "phenum/grouptheory.py"],
     [("enum_sys, add_arrows, arrow_concs", "phenum/phonons.py"), ("brancher", "phenum/tree.py")],
     technique="generated crystals and displaced species against brute-force orbits of labels and directions",
     note="Supercells of up to 9 sites with up to 3 displaced atoms.")

prop("C08", "A sampled subset is valid, inequivalent and of the size asked for",
     "Asking for fewer arrangements than there are returns, for every seed, arrangements of the requested "
     "composition that are pairwise inequivalent under the symmetry of the supercell, none superperiodic unless they "
     "are kept. It returns exactly as many as asked for, or all of those that qualify when there are fewer.",
     "All crystals, superlattices, concentrations, displaced fractions, numbers asked for and seeds.",
     "The tests compare one seed of a few cells with stored lists.",
     ["phenum/phonons.py", "phenum/tree.py"],
     [("enum_sys subset", "phenum/phonons.py"), ("brancher subset counting", "phenum/tree.py")],
     technique="generated requests and seeds; validity, inequivalence and number judged with the exact symmetry",
     note="Supercells of up to 12 sites, 14 where a single species is displaced; with -acceptrate the structures are judged, not their number (see C25, C26).")

prop("C09", "Sampling large cells gives valid, inequivalent structures",
     "In cells too large to enumerate, asking for a few arrangements returns, for every seed, arrangements of the "
     "requested composition (displaced atoms included) that are pairwise inequivalent under the symmetry of the "
     "supercell and not superperiodic unless those are kept, as many as asked for or all there are if there are "
     "fewer; and the search always ends.",
     "All crystals, superlattices of 12 to 24 sites, concentrations, displaced atoms, numbers asked for and seeds.",
     "The random search is seeded once per test and compared with itself; duplicates are rare events there.",
     ["phenum/tree.py", "phenum/phonons.py"],
     [("guess_and_check_brancher", "phenum/tree.py"), ("add_arrows small=True", "phenum/phonons.py")],
     technique="generated large cells and seeds; validity, inequivalence and number judged with the exact symmetry",
     note="One known finding (C09-1: labels follow the sorted concentrations), pinned by a stable test.")

prop("C10", "The polya tables list every shape and concentration with exact counts",
     "For every lattice.in, the table written for each cell size of the range has one row for each inequivalent shape, one "
     "column for each allowed concentration, each count is the exact number of inequivalent arrangements (displaced "
     "atoms included), and the totals of the rows and columns are their exact sums.",
     "All crystals, size ranges, numbers of species, concentration ranges and displaced fractions.",
     "The tests compare tables of a few inputs with stored files.",
     ["phenum/enumeration.py", "phenum/polyaburnside.py", "phenum/HNFs.py", "phenum/phonons.py", "phenum/symmetry.py"],
     [("_polya_out", "phenum/enumeration.py"), ("get_concs_for_size", "phenum/symmetry.py"),
      ("arrow_concs", "phenum/phonons.py")],
     technique="generated lattice.in files; each number of the tables compared with the reference model",
     note="Up to 5 cells and 10 sites.")

prop("C11", "A full enumeration run writes every structure of the crystal once",
     "Running the full enumeration of a lattice.in writes an enum.out whose structures, read on the lattice and sites "
     "of its own header, are exactly the inequivalent derivative structures of the crystal in the size range with the "
     "allowed concentrations and displacements, each once and numbered from 1. It leaves out superperiodic structures "
     "unless they are kept, and the HNF, SNF and left transform of each line belong together.",
     "All crystals (sites inside or outside of the cell), size ranges, species, concentration ranges and displaced "
     "fractions.",
     "The tests compare the output of a few inputs with stored files made by the same code.",
     ["phenum/enumeration.py", "phenum/io_utils.py", "phenum/structures.py", "phenum/phonons.py", "phenum/tree.py"],
     [("_enum_out, _enum_in, _polya_out", "phenum/enumeration.py"), ("write_enum", "phenum/io_utils.py")],
     technique="generated lattice.in files; enum.out decoded and compared with brute force over all shapes",
     note="Up to 4 cells and 6 sites, at most 8000 labelings per case.")

prop("C12", "The concentrations of a cell size are exactly the allowed ones",
     "For every number of sites and species and every set of concentration ranges (a minimum, a maximum and a "
     "denominator of its own for each species, the ends in any order, both inclusive), the list of concentrations for a "
     "cell size holds every way to share the sites of the cell among the species within the ranges, each once, and no other.",
     "All sizes, numbers of sites and species, and concentration ranges.",
     "The tests compare the list for a few ranges that share a denominator; ends that are hit exactly and different "
     "denominators are where rounding goes wrong.",
     ["phenum/symmetry.py"],
     [("get_concs_for_size", "phenum/symmetry.py")],
     technique="generated ranges against a list made in integer arithmetic",
     note="Up to 5 species, 40 sites and denominators of 100.")

prop("C13", "A distribution holds the number asked for within the counts",
     "For every set of polya tables, a distribution of N structures over the sizes, the shapes, the concentrations or "
     "all of them (-distribution) adds up to exactly N, or to the number of structures there are if that is less or 'all' "
     "is asked for. No type gets more structures than the tables count for it, types without structures are not listed, and "
     "the numbers follow the abundances up to rounding. Only the cell sizes asked for (-sizes, stop exclusive) are used.",
     "All tables (counts of any number of digits), kinds of distribution, numbers, seeds and sizes.",
     "The tests compare a few seeds with stored files; sums and limits after rounding depend on the numbers.",
     ["phenum/structures.py", "phenum/enumeration.py"],
     [("make_enum_in, _distribution, _distribute", "phenum/structures.py"), ("_script_enum", "phenum/enumeration.py")],
     technique="generated polya tables and requests, the file written judged by sums, limits and proportions",
     note="Made-up tables of up to 4 sizes, 5 shapes, 5 concentrations and counts of 45 digits. Proportionality is only "
          "judged up to a rounding of four structures per type.")

prop("C14", "A filtered distribution keeps to the listed shapes or concentrations",
     "For every set of polya tables and every filter file (-filter with shape or conc), with or without -sizes, the "
     "distribution holds only shapes or concentrations that the filter file lists, of those sizes, adds up to the number asked for or to all there are of them, and no "
     "type gets more than the tables count for it.",
     "All tables, filter files, kinds of distribution, numbers and seeds.",
     "The tests run two filters on one table.",
     ["phenum/structures.py", "phenum/enumeration.py"],
     [("make_enum_in, _distribution (filters)", "phenum/structures.py")],
     technique="generated polya tables and filter files, the file written judged by sums, limits and the filter",
     note="Made-up tables as for C13.")

prop("C15", "Each row of enum.in is enumerated as it says",
     "For every lattice.in and enum.in, -enum writes for each row (shape, concentration, number) inequivalent structures "
     "of exactly that shape and concentration, with the displaced atoms lattice.in asks for, as many as the row says or all "
     "there are (less only when superperiodic ones are left out), no others, ordered by cell size and "
     "numbered from 1.",
     "All crystals, rows in any order, numbers and seeds, superperiodic structures kept or not.",
     "The tests compare the output for a few files with stored ones made by the same code.",
     ["phenum/enumeration.py", "phenum/io_utils.py", "phenum/phonons.py", "phenum/tree.py"],
     [("_enum_in", "phenum/enumeration.py"), ("write_enum", "phenum/io_utils.py"), ("read_enum", "phenum/io_utils.py")],
     technique="generated lattice.in and enum.in files; each structure decoded and assigned to its row",
     note="Up to 5 rows and 10000 labelings per case.")

prop("C16", "enum.out is read as written and the structures selected are written",
     "For every enum.out, the program enumStr writes exactly the structures selected (all, one, or an inclusive range; those "
     "the file does not hold are passed over), each to the file named after its number, with the lattice and composition of "
     "its own line, and every field of a line is read as it is written.",
     "All enum.out files and selections.",
     "The tests read one or two files.",
     ["phenum/io_utils.py", "phenum/phenumStr.py"],
     [("read_enum_out", "phenum/io_utils.py"), ("run", "phenum/phenumStr.py"), ("_make_structures", "phenum/phenumStr.py")],
     technique="generated enum.out files and selections; files and records compared with what was written",
     note="Made-up files of up to 12 structures.")

prop("C17", "The POSCAR of a structure describes that structure",
     "For every structure of every enum.out, the POSCAR has a cell that spans the structure's superlattice (the cell of the "
     "HNF itself without reduction, a right handed one with it) and exactly one atom on each site of the superlattice, of "
     "the species that the labeling puts there, listed in the order of its species, inside of the cell in lattice "
     "coordinates; the numbers of atoms and the title match them. With species and -remove_zeros those that do "
     "not occur are left out. Positions far outside of the cell are brought into it by whole lattice vectors.",
     "All crystals (sites inside or outside of the cell), superlattices, labelings and options.",
     "The tests compare a few files with stored ones made by the same code; that the sites and labels of a skewed, "
     "multi-site cell are matched is not visible there.",
     ["phenum/phenumStr.py", "phenum/io_utils.py", "phenum/vector_utils.py", "phenum/structures.py"],
     [("write_POSCAR", "phenum/io_utils.py"), ("map_enumStr_to_real_space", "phenum/vector_utils.py"),
      ("cartesian2direct", "phenum/vector_utils.py")],
     technique="generated enum.out files; each atom of the POSCAR traced back to its site of the superlattice",
     note="Superlattices of up to 24 sites, crystals of up to 4 sites.")

prop("C18", "Displaced atoms sit where their direction says",
     "For every structure, displacement and rattle, each atom of the POSCAR whose direction is not zero is moved from its own site by "
     "the displacement along its own Cartesian direction (scaled by a factor drawn anew for each atom from 1 plus or minus the rattle), all others are on their sites, "
     "with and without reduction of the cell, for displacements of any size.",
     "All crystals, superlattices, labelings, directions, displacements, rattles and seeds.",
     "The tests compare a few files with stored ones made by the same code.",
     ["phenum/vector_utils.py", "phenum/io_utils.py", "phenum/phenumStr.py"],
     [("map_enumStr_to_real_space", "phenum/vector_utils.py"), ("write_POSCAR", "phenum/io_utils.py")],
     technique="generated enum.out files with directions; positions compared as sets and atom by atom",
     note="With rattle, small displacements only, so that every atom can be traced to its site.")

prop("C19", "MTP configurations describe the selected structures",
     "For every enum.out, the configurations written with -config have for each structure selected, in order and also "
     "when a later run appends to the file, the superlattice and the displaced positions in units of the lattice parameter "
     "from Vegard's law, and types that follow the labeling (or the species mapping if one is given).",
     "All crystals, superlattices, labelings, directions, displacements, species and mappings.",
     "The tests compare a few files with stored ones made by the same code.",
     ["phenum/io_utils.py", "phenum/phenumStr.py", "phenum/element_data.py"],
     [("write_config", "phenum/io_utils.py"), ("_make_structures", "phenum/phenumStr.py")],
     technique="generated enum.out files; the configuration file parsed and compared with the structures",
     note="Superlattices of up to 8 sites; white space inside of the conf_id is not judged.")

prop("C20", "The reduced cell is a shortest one of the same lattice",
     "For every lattice and superlattice, the reduced cell spans the same lattice, is right handed, and its three vectors "
     "are as short as three independent vectors of the lattice can be (the successive minima); vectors that span no volume are refused.",
     "All lattices, all superlattices and all (sheared) choices of their vectors.",
     "The tests reduce a few cells; the loops depend on the order and the angles of the vectors.",
     ["phenum/vector_utils.py"],
     [("_minkowski_reduce_basis", "phenum/vector_utils.py"), ("_reduce_C_in_ABC, _gaussian_reduce_two_vectors",
                                                             "phenum/vector_utils.py")],
     technique="generated lattices and sheared superlattices against the successive minima found by exhaustive search",
     note="Indices of up to 450.")

prop("C21", "The lattice parameter follows Vegard's law",
     "For every crystal, list of elements and concentrations (zeros included), the lattice parameter is the average, "
     "weighted by the concentrations, of the cube roots of the elements' atomic volumes over the volume per site of the "
     "crystal; the title lists the elements in order, and any other number of elements than species is refused.",
     "All crystals, elements and concentrations.",
     "The tests compare a few binary cells.",
     ["phenum/element_data.py"],
     [("get_lattice_parameter", "phenum/element_data.py")],
     technique="generated crystals, elements and concentrations against the formula",
     note="18 elements; the scale in the POSCAR itself has two decimals.")

prop("C22", "lattice.in is read as written",
     "For every lattice.in, with comments and blank lines anywhere and any spacing and number format, the sizes, "
     "kind, vectors, sites, species, restrictions, concentration ranges and displaced fractions read are those written, and the "
     "struct_enum.in made from it describes the same system; a missing file is refused.",
     "All systems and layouts of the file.",
     "The tests read a few files in the layout of the examples.",
     ["phenum/io_utils.py"],
     [("read_lattice", "phenum/io_utils.py"), ("write_struct_enum", "phenum/io_utils.py")],
     technique="generated systems written in random layouts and read back",
     note="Up to 6 species and 6 sites.")

prop("C23", "The numbering of labelings and directions is one to one",
     "For every concentration, the numbers of the search tree (one digit per species) and the labelings of that "
     "concentration correspond one to one, in both directions; so do the numbers of the arrow tree and the "
     "lists of displacement directions.",
     "All concentrations, labelings, and lists of directions.",
     "The tests convert a few labelings; a number that two labelings share silently loses structures.",
     ["phenum/tree.py", "phenum/phonons.py"],
     [("_hash, _invhash, _coefficients", "phenum/tree.py"), ("_ahash, _ainvhash", "phenum/phonons.py")],
     technique="generated concentrations and directions; round trips, and complete lists up to 3000 labelings",
     note="Up to 24 sites, 5 species and 40 displaced atoms.")

prop("C24", "Factorials, binomial and multinomial coefficients are exact",
     "For all arguments the factorial, the binomial coefficient (zero for k outside of 0..n) and the multinomial "
     "coefficient are the exact integers.",
     "All non-negative integers, and any k.",
     "The tests compute a few small ones; rounding and overflow only show up in large ones.",
     ["phenum/numerics.py"],
     [("factorial, binomial_coefficient, multinomial", "phenum/numerics.py")],
     technique="generated arguments against exact integers",
     note="Arguments up to 300 (sums of up to 450).")

prop("C25", "The directions of the displaced atoms are complete and inequivalent",
     "For every labeling with displaced atoms, every set of directions and every group of operations that keep the labeling, the "
     "arrangements of directions made are one for each class under these operations, without those that a translation maps "
     "onto themselves unless superperiodic ones are asked for; if a number is asked for, that many of them (all if there "
     "are fewer), inequivalent too, with a rate of acceptance that share of them. The labels and the choice of displaced atoms are kept.",
     "All groups of site and direction permutations, labelings, numbers of directions, and numbers asked for.",
     "The tests use a few cubic cells; operations that keep all directions, groups that are not those of a crystal cell "
     "and small or random selections are never compared with a count.",
     ["phenum/phonons.py"],
     [("add_arrows", "phenum/phonons.py"), ("enumeration of the arrow tree", "phenum/phonons.py")],
     technique="generated permutation groups and labelings against orbits by brute force",
     note="Up to 8 sites, 3 displaced atoms and 6 directions, groups of up to 60 operations.")

prop("C26", "The tree searches are right for any group of permutations",
     "For every group of site and direction permutations, concentrations and displaced fractions, the tree search returns "
     "exactly one arrangement of each class (without those a translation maps onto themselves, unless asked for), or those "
     "numbered in a given subset of them; with a rate of acceptance it returns that share of them and no more than asked for, and the random "
     "search as many inequivalent ones as it was asked for, or all.",
     "All groups (not only those of crystals), concentrations, fractions, subsets and numbers asked for.",
     "The tests use the groups of a few cubic cells; a branch cut too early or too late, or a stabilizer that lacks an "
     "operation, only shows with other groups.",
     ["phenum/tree.py", "phenum/phonons.py"],
     [("brancher", "phenum/tree.py"), ("guess_and_check_brancher", "phenum/tree.py")],
     technique="generated permutation groups against orbits by brute force",
     note="Up to 8 sites and 4 species, groups of up to 120 operations; see C09 for the known finding on the random search.")

prop("C27", "The same seed gives the same result",
     "For every request with a seed, the distribution drawn, the structures picked from an enum.in and the files of a whole run are "
     "the same each time, whatever the state of the random numbers before and the order in which the directory lists "
     "its files.",
     "All requests with a seed, states of the random number generator, and orders of listing.",
     "A test runs in one state and one directory order; a sample that depends on either passes it.",
     ["phenum/enumeration.py", "phenum/structures.py", "phenum/phonons.py"],
     [("seeding", "phenum/enumeration.py"), ("choice from the distribution", "phenum/structures.py")],
     technique="generated requests run twice with another random state and directory order; files compared",
     note="Crystals of up to 2 sites for whole runs.", over=("inputs", "histories"))

prop("C28", "Requests that make no sense are refused and leave no files",
     "An unknown kind of distribution or filter, missing tables or files, a wrong number of values, structures that are not "
     "numbers, concentrations that do not add up to the sites, matrices that are singular or not integer, and acceptance rates above one "
     "are refused with the documented exception, and no output file is made.",
     "All requests with one such mistake.",
     "The tests try single wrong values; a request that is half carried out leaves files that look valid.",
     ["phenum/enumeration.py", "phenum/structures.py", "phenum/phenumStr.py", "phenum/polyaburnside.py",
      "phenum/grouptheory.py"],
     [("checks of the arguments", "phenum/structures.py"), ("run", "phenum/phenumStr.py"),
      ("polya", "phenum/polyaburnside.py")],
     technique="generated valid requests with one mistake planted; exception and directory checked",
     note="The mistakes are those the code documents an error for.")

prop("C29", "Groups made from generators or read from a file are complete",
     "For every set of generators, and for translations and rotations, the group made holds every product exactly once. "
     "A file with the permutations of a cell, in any line width, is read as written, and the enumeration with it gives "
     "one structure of each class under that group.",
     "All generators, cells and layouts of the group file.",
     "The tests close a few small groups and read one file.",
     ["phenum/grouptheory.py", "phenum/polyaburnside.py", "phenum/io_utils.py", "phenum/phonons.py"],
     [("a_group, a_group_gen", "phenum/grouptheory.py"), ("group", "phenum/polyaburnside.py"),
      ("read_group", "phenum/io_utils.py"), ("enum_sys", "phenum/phonons.py")],
     technique="generated generators and cells against the closure by brute force",
     note="Up to 8 sites, groups of up to 150 operations from generators.")

prop("C30", "The command line does what its options say",
     "For every command line the values used are those given, the documented defaults otherwise. Every combination "
     "of modes makes exactly the files it names, with the contents that the modes give one after the other, and keeps an "
     "existing input file. The chain polya, distribution, enumeration and POSCARs, run as programs, gives the number of "
     "structures asked for.",
     "All sets of options, modes and file names.",
     "The tests call the functions with ready-made arguments; defaults and combinations of modes are hardly run.",
     ["phenum/enumeration.py", "phenum/phenumStr.py", "phenum/base.py"],
     [("options", "phenum/enumeration.py"), ("options", "phenum/phenumStr.py"), ("_script_enum", "phenum/enumeration.py")],
     technique="generated command lines against the table of options, and modes against their single runs",
     note="For -visualize see C32, for -verbose and -debug C34.",
     over=("inputs", "histories"))

prop("C31", "A run that samples gives inequivalent structures within the limits asked for",
     "For every lattice.in and every combination of -distribution, -sizes, -filter, -super and -seed, -enum with nothing but "
     "lattice.in there writes structures that are pairwise inequivalent under the symmetry of the crystal, also across cell "
     "shapes and concentrations, lie within the sizes, ranges and filter asked for, and are as many as asked for, or all that "
     "qualify.",
     "All crystals, sizes, concentration ranges, displaced fractions, filters, numbers asked for and seeds.",
     "The tests call the steps with stored files; what holds for each of them can be lost between the tables, the "
     "distribution and the enumeration.",
     ["phenum/enumeration.py", "phenum/structures.py", "phenum/phonons.py", "phenum/io_utils.py"],
     [("_script_enum", "phenum/enumeration.py"), ("_enum_in, _enum_out", "phenum/enumeration.py"),
      ("make_enum_in", "phenum/structures.py")],
     technique="generated lattice.in files and options run in full, every structure decoded and compared with the others",
     note="Supercells of up to 7 sites (4 with displaced atoms).")

prop("C32", "The pictures show the atoms and cells of enum.in",
     "For every lattice.in and enum.in, -visualize saves one picture per row; its points are exactly one atom for each site "
     "of the supercell of that row, inside of the cell, at positions of the crystal, and with -shapes its lines are the "
     "edges of a cell of that superlattice.",
     "All crystals (several sites too), shapes and files.",
     "The tests only look at whether the pictures of one cell are made.",
     ["phenum/visualize.py"],
     [("HNF_atoms, HNF_shapes", "phenum/visualize.py")],
     technique="generated cells drawn, points and lines of the figures read back and compared with the superlattice",
     note="Supercells of up to 8 sites; read from the figure objects, not from the pixels.")

prop("C33", "What is in the folder is used, and nothing else is touched",
     "For every history of commands in one folder (polya tables under any name, distributions, enumerations, POSCAR files), of "
     "edits of their files by hand and of removed files, each command works from the files that are there (tables or an enum.in "
     "that exist are only computed anew when -polya asks for it, those that are missing are made), writes what these files say, and leaves every "
     "other file as it was, to the byte.",
     "All sequences of commands, file names, cell sizes, edited tables and inputs.",
     "The tests call each step once, with stored files in a folder that holds nothing else.",
     ["phenum/enumeration.py", "phenum/structures.py", "phenum/io_utils.py", "phenum/phenumStr.py"],
     [("_enum_in, _polya_out, _enum_out", "phenum/enumeration.py"), ("make_enum_in", "phenum/structures.py"),
      ("run", "phenum/phenumStr.py")],
     technique="stateful generation: random histories of commands and edits against a model of the folder",
     note="Up to 10 steps, crystals of 1-2 sites, cells of up to 4 sites, no displaced atoms; superperiodic structures are kept.")

prop("C34", "What is shown on the screen does not change the results",
     "For every request to the two programs with a seed, -verbose and -debug change nothing in the files written, whether or not "
     "a module for progress bars is installed.",
     "All modes, crystals, rows, rates of acceptance, distributions and structures.",
     "No test runs verbosely, the code that shows the progress is excluded from the coverage.",
     ["phenum/base.py", "phenum/msg.py", "phenum/tree.py", "phenum/phonons.py", "phenum/enumeration.py"],
     [("exhandler", "phenum/base.py"), ("verbosity", "phenum/msg.py"), ("brancher", "phenum/tree.py")],
     technique="differential: the same generated request with and without the options, and with a stand-in for the progress bar",
     note="What is shown is not judged.")

prop("C35", "Results do not depend on how the crystal is described",
     "Two lattice.in files that describe the same crystal, with another basis of the same lattice, another origin, the sites in another "
     "order or moved by lattice vectors, the whole crystal turned, reflected or scaled (to lengths between a few hundredths and a few thousand), "
     "or the species in another order, give polya tables with the same rows (shape by shape, up to the names of the shapes) and full "
     "enumerations with the same number of structures of each size, concentration and number of displaced atoms. With displaced atoms this "
     "holds for turns that permute the Cartesian axes.",
     "All crystals, descriptions, sizes, species, ranges of concentrations and displaced fractions.",
     "Every test describes its crystal in one way.",
     ["phenum/symmetry.py", "phenum/HNFs.py", "phenum/grouptheory.py", "phenum/enumeration.py", "phenum/polyaburnside.py"],
     [("get_lattice_pointGroup, get_spaceGroup, bring_into_cell", "phenum/symmetry.py"), ("get_HNFs", "phenum/HNFs.py"),
      ("_polya_out, _enum_out", "phenum/enumeration.py")],
     technique="metamorphic: both commands on two generated descriptions of one crystal",
     note="Rows are compared as a whole, not shape by shape; tables of up to 12 sites, enumerations of up to 6.")

prop("C36", "The POSCARs of an enumeration are its structures, each once",
     "Running enumeration.py -enum on a lattice.in and then makeStr.py all on its output gives POSCARs that, read as crystals of their own "
     "(cell, species, positions, displacements), are exactly the inequivalent derivative structures the lattice.in asks for: every one "
     "of them, none of them twice up to the symmetry of the crystal, and no others, whether or not the cells are reduced.",
     "All crystals, ranges of sizes and concentrations, species and displaced fractions small enough to be enumerated.",
     "The tests compare enum.out and POSCARs with stored files, never one with the other.",
     ["phenum/enumeration.py", "phenum/phenumStr.py", "phenum/vector_utils.py", "phenum/io_utils.py", "phenum/phonons.py", "phenum/tree.py",
      "phenum/grouptheory.py"],
     [("_enum_out", "phenum/enumeration.py"), ("_make_structures", "phenum/phenumStr.py"),
      ("map_enumStr_to_real_space", "phenum/vector_utils.py"), ("read_enum_out, write_POSCAR", "phenum/io_utils.py")],
     technique="reference model: the structures found by brute force, and the POSCARs of a generated lattice.in decoded from their positions alone",
     note="Cells of up to 6 sites (4 with displaced atoms); the lattice parameter is 1 (for species see C21).")

prop("C37", "A surface keeps exactly the operations that keep its normal",
     "For a slab (first lattice vector along x, the other two in the yz plane), the group of a supercell that get_sym_group finds with LatDim 2 "
     "holds exactly the permutations of the operations of the space group that take the normal to itself or its opposite, each once (with the "
     "permutations of the displacement directions when asked for), and get_HNFs with LatDim 2 returns one representative of each class of "
     "sublattices under these operations; lattices of another form are refused with a ValueError.",
     "All slabs, bases of the plane, heights, sites and supercells.",
     "The tests use this mode only for the permutations of the sites of a few crystals.",
     ["phenum/grouptheory.py", "phenum/HNFs.py", "phenum/symmetry.py"],
     [("_rm_3D_operations", "phenum/grouptheory.py"), ("get_sym_group", "phenum/grouptheory.py"), ("get_HNFs", "phenum/HNFs.py")],
     technique="generated slabs and supercells against the exact operations that keep the normal",
     note="Supercells of up to 16 sites; the two programs never use this mode.")
