"""Single source of properties.jsonl: one dict per property."""
D, S, C, T, X = ("graphicle/data.py", "graphicle/select.py",
                 "graphicle/calculate.py", "graphicle/transform.py",
                 "graphicle/matrix.py")
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if "state" in kw:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in kw["state"]]
    if "observe" in kw:
        anchors["observe_at"] = kw["observe"]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=anchors))


p("C01", "Mask expressions follow Boolean algebra",
  "Combining boolean masks with and, or, not, equal and not-equal gives, at every position, exactly the result of the Boolean operation on the operands, whether an operand is a mask, a mask group (standing for its aggregate) or a numpy boolean array. Operands are left unchanged, also when the result is later written to, masks of incompatible length or type are rejected with an error for equality comparison, and selecting or assigning positions of a mask affects exactly those positions.",
  ["inputs", "programs"],
  "every pair of masks up to a small length, every operand kind, and every expression of bounded depth over them",
  "The tests never evaluate a mask expression; the law ranges over all operand values, kinds and nestings.",
  [D], [("mask operators", f"{D}: MaskArray.__and__/__or__/__invert__/__eq__/__ne__, MaskGroup likewise"),
        ("mask comparison helpers", f"{D}: _mask_eq, _mask_neq"),
        ("ufunc protocol", f"{D}: _array_ufunc")])

p("C02", "A mask group behaves as an ordered mapping under any edit history",
  "After any sequence of insertions, replacements, deletions, updates, key-list selections, slicings, changes of the aggregation operation and copies, a mask group reports exactly the keys (in insertion order), masks and aggregate that the same history gives on a plain ordered dictionary of boolean lists, and looking up or deleting a missing key is a KeyError. A copy is independent of the original at every level of nesting in both directions, and the aggregate is the and / or of the members as currently selected, or an error when no aggregation is set.",
  ["histories"],
  "every edit history up to a bounded depth from empty and non-empty groups, flat and nested",
  "Tests build no mask group and edit none; the claim is about every history, including aliasing between a copy and its origin.",
  [D], [("mapping interface", f"{D}: MaskGroup.__getitem__/__setitem__/__delitem__/copy"),
        ("aggregation", f"{D}: MaskGroup.data, bitwise_or, bitwise_and, agg_op")],
  state=[("mask_arrays", "ordered name to mask mapping"), ("agg_op", "aggregation mode")])

p("C03", "Restructuring nested masks preserves every mask",
  "Flattening a nested mask group (raising all levels, aggregating the top level, or keeping the innermost masks), recursively dropping a key, serialising it, testing two groups for equality with or without order, checking for overlaps, and building a group from a structured array give exactly the keys and boolean values that follow from the tree. No boolean value is altered or attached to another key, 'latent' entries are skipped precisely where documented, and an input tree is only changed when the drop is asked to happen in place.",
  ["inputs"],
  "every mask tree up to a bounded number of nodes and depth, with every placement of 'latent' keys, aggregation mode and leaf values",
  "Tests contain no nested mask; the claim covers every tree shape.",
  [D, S], [("flatten / recursive_drop / equal_to / serialize", f"{D}: MaskGroup"),
           ("leaf traversal", f"{S}: _leaf_mask_iter, leaf_masks, any_overlap")])

p("C04", "Indexing an event keeps every attribute on the same particle",
  "Indexing any data array, particle set or event with an integer, slice, index list or array, boolean array, mask or mask group selects the same rows, in the same order, that numpy selects from the raw columns, in every non-empty attribute at once, edges and edge weights included. Absent attributes stay absent, the type is preserved, the original is unchanged, length and truth value agree with the number of rows, and iteration yields the rows in order.",
  ["inputs", "histories"],
  "every event length up to a bound (including the column counts 2 and 4), every subset of attributes, every key form, and chains of two keys",
  "Tests index nothing; misalignment shows only for particular key forms, lengths and attribute subsets.",
  [D], [("array __getitem__", f"{D}: all *Array.__getitem__, AdjacencyList.__getitem__"),
        ("composite __getitem__", f"{D}: _composite_getitem, _nonempty_dsets"),
        ("length and truth", f"{D}: _composite_len, _composite_bool, _truthy")])

p("C05", "Copies are deep, complete and independent",
  "Copying any array, mask, mask group, edge list, particle set or event gives an object equal in every attribute, weights and aggregation mode included. Afterwards no write through either object, by setter, in-place arithmetic or writable view, is visible through the other, and the copy's derived quantities are its own.",
  ["histories"],
  "every attribute subset, and every history of copy / write / read operations up to a bounded depth over up to three objects",
  "Tests never copy anything; aliasing only shows in histories that write through one object and read through another.",
  [D], [("copy methods", f"{D}: *.copy, _composite_copy")])

p("C06", "Input layout never changes the stored values",
  "Whatever representation columns are supplied in - nested sequences, arrays of any numeric type, byte order, memory order or strides, single rows, or structured arrays with fields in any order and under any documented alias - construction and reassignment store the same numeric rows in the documented column order and type. Input with the wrong number of columns is rejected, and an empty input gives an empty array.",
  ["inputs", "configurations"],
  "every array class and every combination of field permutation, alias, dtype, byte order, memory order, stride and row count (including row counts equal to the column count)",
  "Tests always pass freshly made contiguous arrays with fields in canonical order.",
  [D], [("column normalisation", f"{D}: _array_field, _reorder_pmu, _reorder_edges, _row_contiguous")])

p("C07", "Derived quantities always reflect the current data",
  "After any history of replacing the data through the setter, in-place arithmetic, numpy functions writing into the array, and reads in any order, every derived momentum component (transverse momentum, pseudorapidity, rapidity, azimuth, polar angle, mass, transverse mass) and every topological query of an edge list equals what a freshly constructed object with the same data gives. Repeated reads without a write return equal values.",
  ["histories"],
  "every history of reads and writes up to a bounded depth, in lockstep with a model that recomputes from scratch",
  "Caching bugs need a read, then a particular kind of write, then a read; tests perform at most one read per object.",
  [D], [("cached kinematics", f"{D}: MomentumArray cached properties"), ("cached topology", f"{D}: AdjacencyList cached properties"),
        ("setter and ufunc out handling", f"{D}: data setters, _array_ufunc")],
  state=[("cached properties", "values computed on first read")])

p("C08", "Kinematic quantities match their definitions everywhere",
  "For every four-momentum, the components, transverse momentum, pseudorapidity, rapidity, azimuth, polar angle, mass (negative for spacelike momenta) and transverse mass equal their textbook definitions to floating-point accuracy, for all sign combinations and over many orders of magnitude. Momenta along the beam have infinite pseudorapidity of the right sign and undefined (NaN, with a numerical-stability warning) azimuth, massless momenta along the beam have infinite rapidity of the right sign, and one particle's values never depend on the others in the array.",
  ["inputs"],
  "every four-momentum on a grid of signs, zeros, degenerate and extreme values, alone and in every batch position",
  "Tests check a few hand-picked points; the definitions must hold in every octant and degenerate direction.",
  [D, C], [("kinematic properties", f"{D}: MomentumArray properties"), ("kernels", f"{C}: _rapidity, _root_diff_two_squares")])

p("C09", "Longitudinal boosts and azimuthal rotations obey their group laws",
  "Shifting rapidity adds the shift to each particle's rapidity and leaves transverse momentum, azimuth, mass and relative rapidities unchanged; shifting azimuth rotates the transverse plane and leaves the rest unchanged; both accept a scalar or one value per particle. Consecutive shifts add up, opposite shifts cancel, the original array is never modified, and the pseudorapidity shift moves the combined object (or, in the experimental mode, each particle) by the requested amount.",
  ["inputs", "histories"],
  "every momentum and shift on a grid, scalar and element-wise, and every sequence of shifts up to a bounded length",
  "Tests do not shift anything; group laws quantify over all shifts and their compositions.",
  [D], [("boosts and rotations", f"{D}: shift_rapidity, shift_eta, shift_phi")])

p("C10", "Numpy functions and comparisons act element-wise on the raw columns",
  "Applying arithmetic operators, numpy universal functions and their reductions to data arrays gives the same numbers as applying them to the raw columns: the result is of the same class, a mask for boolean results, or a plain array or scalar when reduced over columns or flat data, and the operands are unchanged. Equality and inequality compare whole rows (all columns) against arrays, structured arrays and single rows, giving complementary masks, rejecting rows of another length, and two particle sets or events compare equal exactly when every component does.",
  ["inputs", "programs"],
  "every array class, operator, operand kind and reduction axis over small arrays including row counts equal to the column count, and every single-entry difference for comparisons",
  "Tests exercise only one division; the behaviour depends on class, operator, operand kind and shape.",
  [D], [("ufunc protocol", f"{D}: _array_ufunc"), ("comparisons", f"{D}: _array_eq, _array_ne, _array_eq_prep, _mask_eq, _mask_neq")])

p("C11", "Serialisation round-trips every event exactly",
  "Serialising any array, mask, mask group, edge list, particle set or event gives only built-in Python values that mirror the rows in order, with every attribute under its own name. Feeding the serialised values back to the constructors reproduces the data bit for bit.",
  ["inputs"],
  "every attribute subset, length and boundary value of every attribute type, nested mask trees included",
  "One example event is serialised by the tests; absent attributes, extreme values and nested masks are not.",
  [D], [("serialize", f"{D}: *.serialize")])

p("C12", "Particle-code lookups agree with the particle data table",
  "For every code in the particle data table, in every array position and combination, name, charge, mass, width, bounds, quark content, isospin, parities and LaTeX equal the table's entry for that code (masses and widths in GeV), and construction from an unambiguous name inverts the name lookup while unknown names are rejected. The code filter keeps or removes exactly the listed codes, honouring blacklist / whitelist and whether sign matters on both sides of the comparison.",
  ["inputs"],
  "every code in the table, order and repetition of small arrays, and every filter target set up to a bound with every flag combination",
  "Tests look up the quark content of a handful of codes.",
  [D], [("table lookups", f"{D}: PdgArray.__get_prop, __get_prop_range, properties"), ("from_name and mask", f"{D}: PdgArray.from_name, PdgArray.mask")])

p("C13", "Status filters partition the record by code",
  "Range selection over status codes keeps exactly the particles whose code (or its magnitude, when sign is ignored) lies within the inclusive bounds, with an unbounded upper end if none is given. The hard-process categories contain exactly the particles whose status magnitude is 21, 22, 23 and 24 respectively, so they are disjoint and their union is the hard process.",
  ["inputs"],
  "every 16-bit status code and every pair of range bounds around and beyond the code values, for both sign modes",
  "No test touches status codes.",
  [D], [("range and hard masks", f"{D}: StatusArray.in_range, StatusArray.hard_mask")])

p("C14", "Events built from arrays carry exactly what was supplied",
  "Building a particle set or event from arrays, from an event object exposing any subset of attributes, or from a Les Houches event stores each supplied attribute under its own name with unchanged values, and leaves the others empty. Les Houches status codes map to their documented shower-style equivalents with every other code unchanged and no particle marked final; the source's arrays are never modified.",
  ["inputs", "configurations"],
  "every subset of attributes and source style, every Les Houches status code, and several dtypes of the source arrays",
  "Tests never build from an event object or a Les Houches record.",
  [D], [("constructors", f"{D}: ParticleSet.from_numpy, from_lhe_event, Graphicle.from_numpy, from_event")])

p("C15", "Tabular display shows every particle, or says what it leaves out",
  "The plain and HTML tables of a particle set or event list one row per particle in order with the columns of the attributes present and their values, up to sixty particles. Longer records show the first five and last five particles around a single ellipsis row, and the footer states the true number of particles and attributes.",
  ["inputs"],
  "every record length around the truncation threshold, every attribute subset, both formats",
  "No test renders a table; truncation only appears past a length threshold.",
  [D], [("table rendering", f"{D}: _table_repr, ParticleSet._table_list, Graphicle._table_str")])

p("C16", "Edge lists and matrices describe the same graph",
  "For any non-empty directed multigraph, the node list holds each vertex once in ascending magnitude, the root (leaf) mask marks exactly the edges leaving (entering) a vertex with no incoming (outgoing) edge, and the dense matrix holds edge multiplicities or summed weights with vertices in ascending label order. Building an edge list from a matrix gives one edge per non-zero entry with its value as weight when asked, every node looped when self-loops are requested, and composing both directions reproduces the matrix; the sparse form places each supplied value on its own edge.",
  ["inputs"],
  "every multigraph up to a bounded number of edges and vertices, several vertex labellings including negative and large ids, weighted or not",
  "No test touches edge lists; multi-edges, self-loops, sign conventions and label gaps each need their own input.",
  [D], [("graph views", f"{D}: AdjacencyList.nodes/roots/leaves/matrix/from_matrix/to_sparse")])

p("C17", "Descendants of a vertex are exactly the reachable edges",
  "The descendants of a vertex are exactly the edges whose source is reachable from it along directed edges (its own outgoing edges included), for any graph, vertex labels and edge order; for a vertex without outgoing edges they are the edges ending there. The descendants of an edge are those of its destination vertex plus the edge itself.",
  ["inputs"],
  "every directed multigraph up to a bounded number of edges and vertices, every labelling family, edge order and start vertex",
  "No test computes descendants; reachability needs particular shapes such as diamonds, re-merging, cycles and multi-edges.",
  [S, D], [("breadth-first descendants", f"{S}: vertex_descendants, edge_descendants"), ("sparse relabelling", f"{D}: AdjacencyList._edge_relabel, _sparse_csr")])

p("C18", "Vertex search finds exactly the matching interaction vertices",
  "Searching for vertices by incoming and outgoing particle codes returns exactly the vertices whose set of incoming codes contains the requested incoming codes and whose outgoing codes contain the requested outgoing codes, each once. Leaving one side unspecified places no restriction on that side, and specifying neither is an error.",
  ["inputs"],
  "every small directed graph with every assignment of codes to edges and every search set",
  "No test searches for a vertex.",
  [S], [("vertex search", f"{S}: find_vertex")])

p("C19", "The hard-process tree nests every parton under its parent",
  "For any event whose hard process forms a forest, the descendant masks contain each selected hard parton and exactly its shower descendants, under names made unique by numbering duplicates, selected by code with the requested sign sensitivity and strictness. The hierarchy nests each parton under its closest hard ancestor, every hard parton appears exactly once, leaves hold exactly the parton and its descendants, and each 'latent' mask holds exactly the parent's particles not claimed by its children.",
  ["inputs"],
  "every hard-process forest up to a bounded size, with every row order of the record in a bounded set, code assignments with duplicates, shower shapes, and target / sign / strictness arguments",
  "No test builds a hard process; errors depend on the tree shape, name collisions and row order.",
  [S], [("descendants of partons", f"{S}: hard_descendants, _pdgs_to_keys"), ("tree building", f"{S}: hierarchy, _flat_hierarchy, _hard_parent_matrix, _make_tree")])

p("C20", "Hadrons of mixed origin are given to their nearest parton only",
  "Hadronisation vertices are exactly the sources of particles with status 80 to 90. Partitioning a hierarchy changes, within each leaf, only final-state descendants of hadronisation vertices which that leaf feeds, keeping such a hadron exactly when the incident parton nearest to it in transverse-momentum-weighted distance belongs to the leaf; so siblings feeding one vertex share no final hadron of it, and the input hierarchy is not modified.",
  ["inputs"],
  "every incidence of up to three hard and background partons on one or two hadronisation vertices with every hadron placement on a small grid",
  "No test partitions anything; the outcome depends on which partons meet at which vertex.",
  [S, X], [("partition", f"{S}: partition_descendants, _partition_vertex, _hadron_vtx_parton_iter, hadron_vertices"), ("distance", f"{X}: parton_hadron_distance")])

p("C21", "Colour singlets are exactly the colour-matched groups",
  "Among outgoing hard partons, the colour-singlet search returns exactly the pairs and triples of coloured partons whose set of colours equals their set of anticolours, in leaf order. The inverted search returns exactly the coloured partons that are in no such group, each once, and colourless partons never appear.",
  ["inputs"],
  "every assignment of colour / anticolour codes from a small set to up to five outgoing partons, in every leaf order of a bounded set",
  "No test looks for singlets; grouping is combinatorial in the colour flow.",
  [S], [("singlet search", f"{S}: color_singlets")])

p("C22", "Centroids, combined masses and cone pruning match their definitions",
  "The combined mass and combined coordinates are those of the (optionally weighted) sum of four-momenta, with zero mass for negative squared mass; the weighted centroid is the transverse-momentum-weighted mean of each coordinate wrapped to one turn; aggregating clusters gives one summed momentum per mask, in order. Cone pruning keeps exactly the particles (within the given mask) whose distance to the given centre, or to the combined coordinates, is below the radius, with azimuth differences wrapped.",
  ["inputs"],
  "every small point cloud and mask on a momentum grid, with radii around each distance and centres including the azimuth seam",
  "No test calls these; azimuth wrapping and masks need particular placements.",
  [C, S], [("combinations", f"{C}: weighted_centroid, resultant_coords, combined_mass, aggregate_momenta"), ("pruning", f"{S}: centroid_prune")])

p("C23", "Jet clustering realises the generalised-kt algorithm",
  "For every point cloud and supported exponent, the jets returned are those of the sequential generalised-kt recombination with the given radius: disjoint masks over the input in descending transverse momentum, together covering the input when no cut is applied. Jets below the transverse-momentum cut or at or beyond the pseudorapidity cut are left out, at most the requested number of hardest remaining jets is kept, and invalid cuts, radii and counts are rejected.",
  ["inputs"],
  "every point cloud of bounded size on a grid of positions and transverse momenta (ties avoided), for exponents -1, 0, 1 and fractional, and all cut combinations",
  "No test clusters anything; ordering, cuts and their combination need multi-jet inputs.",
  [S], [("clustering wrapper", f"{S}: fastjet_clusters")])

p("C24", "Closest-object assignment is one-to-one and globally optimal",
  "Assigning candidates to focus objects gives each focus object a different candidate such that the total cost (one minus a Gaussian in angular distance plus one minus a Gaussian in transverse-momentum difference, with widths set by the spread over candidates) is minimal over all assignments, without altering its inputs. Tagging clusters with truth partons selects hard partons by stage and black- or whitelist, assigns each the cluster so chosen under its unique name, and rejects contradictory, empty or mismatched arguments.",
  ["inputs"],
  "every small set of focus and candidate momenta from a grid compared with brute-force enumeration of assignments, and every combination of stage, filter list and sign flags",
  "No test tags anything; optimality and filters are combinatorial.",
  [S, C], [("assignment", f"{S}: arg_closest, monte_carlo_tag"), ("cost kernel", f"{C}: _assignment_cost")])

p("C25", "Angular distances and clustering coefficients match their definitions",
  "The distance between two particles is the Euclidean distance of (pseudo)rapidity and wrapped azimuth; the distance matrix of an array with itself is symmetric with zero diagonal and equals the general two-array result, and every entry depends only on its own pair. The weighted parton-hadron distance scales each row by the parton's transverse momentum raised to the exponent, and each clustering coefficient is the fraction of pairs of a particle's neighbours within the radius that are themselves neighbours.",
  ["inputs", "configurations"],
  "every pair and small cloud of momenta on a grid including the azimuth seam and beam directions, rapidity or pseudorapidity, radii and thread counts",
  "No test computes a distance.",
  [D, C, X], [("distance kernels", f"{C}: _delta_R, _delta_R_symmetric, _clust_coeffs, cluster_coeff_distbn"), ("wrappers", f"{D}: MomentumArray.delta_R; {X}: delta_R_aff, parton_hadron_distance")])

p("C26", "Parallel kernels are independent of schedule and thread count",
  "For every interleaving of the iterations of the parallel loops, and for every thread count, the distance matrices, clustering coefficients and assignment costs are identical to the sequential result. Calls that take a thread count leave the process-wide thread count as it was, also after an error and in any nesting or order of such calls.",
  ["schedules", "histories"],
  "all interleavings of the parallel iterations of each kernel under a controlled scheduler up to a preemption bound, all thread counts available, and all histories of threaded calls up to a bounded depth",
  "Tests run no parallel kernel, and a test run sees only one schedule.",
  [C, D, S], [("parallel kernels", f"{C}: _delta_R, _delta_R_symmetric, _clust_coeffs, _assignment_cost"), ("thread scope", f"{C}: _thread_scope")])

p("C27", "Event shapes are attained at the axis they report",
  "The thrust and spherocity values equal their defining sums evaluated at the unit axis returned with them, a fixed seed gives the same result again, no neighbouring axis gives a larger thrust (or, in general position, a smaller spherocity), and whatever the seed both are exact for events whose particles lie along one line or form regular planar or spatial crosses. The C-parameter equals its defining double sum over particle pairs, and all three ignore energies, the order of particles and (while squares of the momenta stay within floating-point range) an overall scale, and accept particles at rest.",
  ["inputs", "configurations"],
  "every small event on a direction and magnitude grid against exhaustive enumeration of extremal axes, over a range of seeds",
  "Tests check a pencil, a two-particle and a spherical event with one seed each.",
  [C], [("event shapes", f"{C}: thrust, spherocity, c_parameter and kernels")])

p("C28", "Jaccard distance is the weighted symmetric-difference ratio",
  "The Jaccard distance of two masks is the weight of their symmetric difference divided by the weight of their union (zero when the union has no weight), with unit weights by default, whether masks are given as mask objects, groups or numpy arrays. It is symmetric, zero for equal masks, at most one for non-negative weights, and satisfies the triangle inequality.",
  ["inputs"],
  "every pair and triple of masks up to a bounded length and every weight vector from a small set",
  "No test computes a Jaccard distance.",
  [C], [("jaccard", f"{C}: jaccard_distance, _jaccard_distance")])

p("C29", "Adjacency constructed from affinities keeps exactly the right edges",
  "Cutting an affinity matrix keeps exactly the entries on the requested side of the cut, nearest-neighbour selection on a symmetric affinity gives each row (or column) its k nearest others at no greater distance than any it leaves out, for every k up to all others, and the fully connected matrix has every edge. Diagonals follow the self-loop flag, entries carry the affinity when weighted and are boolean otherwise, and the affinity matrix passed in is not modified.",
  ["inputs"],
  "every small symmetric affinity matrix over a value set with ties, every k, cut and flag combination",
  "No test builds an adjacency matrix.",
  [X], [("adjacency builders", f"{X}: cut_adj, knn_adj, fc_adj")])

p("C30", "Splitting and rotating momenta conserve what they must",
  "Rotation matrices are proper orthogonal, fix their axis, rotate by the given angle in the right-hand sense and compose additively; the soft-hard axis is the unit normal to the plane of the softest and hardest momenta, oriented from soft to hard. Splitting replaces one momentum (the hardest by transverse momentum) by two final rows that sum to it, the first carrying fraction z of the energy rotated by the angle, with all others unchanged in order; invalid fractions and too few momenta are rejected.",
  ["inputs"],
  "every angle, axis, fraction and small momentum set on a grid, with the hardest particle in every position",
  "Tests check invertibility of angles and a few splits of random momenta.",
  [T], [("rotations and splitting", f"{T}: rotation_matrix, soft_hard_axis, split_momentum, split_hardest, _axis_to_angles")])

p("C31", "Random momenta respect bounds, mass options and seeds",
  "For every size, energy bound, massless probability and seed, sampled momenta have energies within the bound, are never spacelike beyond rounding, are all massless at probability one and only massive at zero, and populate every octant of directions; the same seed gives the same momenta. Probabilities outside the unit interval are rejected.",
  ["inputs", "configurations"],
  "every seed in a range, sizes from zero up, energy bounds over orders of magnitude, and massless probabilities including both ends",
  "Tests use the sampler as a source of data, and never examine its output.",
  [D], [("sampler", f"{D}: MomentumArray.from_spherical_uniform")])

p("C32", "Queries have no side effects",
  "No query, selection, calculation, transformation or rendering function modifies the objects passed to it, any array it or an earlier call returned, the answer that any later query gives, or a process-wide setting (numpy error handling, random state, thread count). Hence all queries commute: every ordering of a sequence of queries returns the same answers as running each on a fresh copy.",
  ["histories"],
  "every sequence of public queries up to a bounded length on a shared event, compared with each query on a fresh copy and a bitwise snapshot of inputs and earlier results",
  "Tests run each query once on its own object; interference needs two queries and a shared object.",
  [D, S, C, T, X], [("all queries", f"{D}, {S}, {C}, {T}, {X}: public functions and properties")],
  state=[("cached arrays", "buffers handed out by cached properties")])

p("C33", "End-to-end clustering tags final particles by their hard parton",
  "For any event with a hard-process forest, the end-to-end clustering returns one mask over the final-state particles for each hard parton, holding exactly the final descendants left after mixed hadrons went to the nearest parton and, for partons not in a colour singlet, after removal of those at or beyond the radius from the parton. A composite parton's mask is the union of its leaf partons' masks, and the event is not modified.",
  ["inputs"],
  "every event of a family over hard trees, colour flows, hadronisation incidences and radii",
  "No test runs the clustering.",
  [S], [("clusters", f"{S}: clusters, partition_descendants, color_singlets, centroid_prune")])

p("C34", "Printed forms show the structure of the data",
  "The printed tree of a mask group names the root's aggregation mode and lists every key exactly once, beneath its parent's key and in order, at every depth; its short form lists the top-level keys in order with the mode. The printed form of a data array names its class and its element type and shows its rows just as numpy prints them, at every length and for every value, and printed particle sets and events show all their parts in order. Printing changes nothing.",
  ["inputs"],
  "every mask tree of a family up to three levels with every aggregation mode, every data class over lengths around numpy's summarising thresholds, and every attribute subset",
  "No test looks at a printed form; the claim covers every shape of tree and length of array.",
  [D], [("tree printing", f"{D}: MaskGroup.__repr__/__str__/_rich_tree"), ("array printing", f"{D}: _array_repr and the __repr__ of the data classes")])

p("C35", "Pickles and standard-library copies round-trip",
  "Pickling and unpickling, and deep-copying, any data array, mask, mask group, edge list, particle set or event gives an object of the same class that is equal to it in every attribute, edge weights and aggregation modes included, and whose derived quantities are those of its data, whether or not they were read before. Afterwards the two objects are independent: writes through either, before or after further reads, never show through the other.",
  ["inputs", "histories"],
  "every attribute subset at several lengths, every small mask tree, every pickle protocol and the copy module, and every bounded history of reads and writes before and after the transport",
  "Tests pickle and copy nothing; a fault shows only for some history of reads, transports and writes.",
  [D], [("data classes", f"{D}: attrs classes and their cached quantities"), ("array base", "graphicle/base.py: ArrayBase")],
  state=[("cached quantities", "derived arrays remembered by an object")])

p("C36", "Rejected operations leave every object as it was",
  "When an operation is rejected with an error, the object it was called on, its operands, its derived quantities, the answers of all later queries, the effects of all later writes and the process-wide settings are just as if the operation had never been attempted. This holds for assignments, in-place arithmetic, indexing, mask and mask group edits, constructors, tagging, clustering and calculations alike, and for repeated rejections.",
  ["histories"],
  "every pair of rejected operations from a list for each class, after no read, all reads or any write, followed by every write",
  "Tests hold a few checks that an error is raised, none of what is left behind by it.",
  [D, S, C, T], [("setters and validation", f"{D}: data setters, MaskGroup.__setitem__, AdjacencyList.weights"), ("argument checks", f"{S}, {C}, {T}: raise statements")],
  state=[("objects", "values and remembered derived quantities")])


p("C37", "Concurrent queries answer as they do alone",
  "When several threads query the same momenta, edge lists, masks or events at once, or each objects of its own, every query gives the answer and shows the warnings that it gives when it runs alone, whatever the interleaving. The shared objects, the settings of each thread and the process-wide settings (warning filters, numpy error handling, thread count) end as after running the queries one by one.",
  ["schedules"],
  "every pair of queries on shared or separate objects, and every interleaving of the two within a bound on the number of preemptions",
  "Tests are sequential; a race needs one thread to run between two particular lines of another.",
  [D, S, C, T, X], [("remembered quantities", f"{D}: cached properties"), ("scoped settings", f"{C}: _thread_scope, np.errstate blocks")],
  state=[("shared caches and settings", "filled or switched while other threads run")])

p("C38", "Answers do not depend on how data is held in memory",
  "Every query gives the same answer whether the columns of an event are plain arrays or hold the same values read-only, in foreign byte order, unaligned, strided, reversed, column-major, structured, memory-mapped, in a bytes object or in an array subclass, one column alone or all together. The same holds for array operands of native byte order. The query leaves them unchanged, and copies of such objects are ordinary, writable and independent.",
  ["inputs", "configurations"],
  "every public query, every way of holding the data, and every choice of column or operand held that way",
  "Tests build everything from fresh contiguous arrays.",
  [D, S, C, T, X], [("converters", f"{D}: _array_field, data properties"), ("compiled kernels", f"{D}, {C}, {S}: signatures of the numba functions")])

p("C39", "Omitted arguments mean their documented defaults",
  "Leaving out any optional argument of a public function, method or constructor gives the same answer as passing its default explicitly, for every combination of values of the other optional arguments. Passing arguments by position, in the published order, is the same as passing them by name.",
  ["inputs", "configurations"],
  "every public callable with optional arguments, every subset omitted, every split into positional and named arguments, and both values of each remaining argument",
  "Tests call each function in one spelling.",
  [D, S, C, T, X], [("signatures and default handling", f"{D}, {S}, {C}, {T}, {X}: public signatures")])

p("C40", "Data arrays are sequences of native rows",
  "Iterating over a data array forwards or in reverse, several times at once, unpacking it, serialising it, counting a row, testing for a row and searching for its position from any start to any stop give what a list of the same rows as native Python values gives. Iterating over a particle set or event gives its rows in order, one per particle, and ends also when it is empty.",
  ["inputs"],
  "every array of every class over a small alphabet of rows up to a length, every row or foreign value searched for, and every start and stop; long arrays; every attribute subset of events",
  "Tests iterate over nothing but short columns and never search.",
  [D, "graphicle/base.py"], [("iteration", f"{D}: __iter__, __len__, serialize"), ("sequence protocol", "graphicle/base.py: ArrayBase, AdjacencyBase")])

p("C41", "Row order and vertex numbering are immaterial",
  "Listing the particles of an event in any other order, and renumbering its vertices by any one-to-one map (signs, gaps, zero and the ends of the integer range included), only relists and renames the answers. Roots, leaves, descendants, vertex searches, hard-process hierarchies, partitions, colour singlets, clusters, tags, jets, distances, adjacency matrices, kinematic quantities and sums refer to the same particles and vertices as before.",
  ["inputs", "configurations"],
  "every permutation of the rows of small records, and on larger events rotations, swaps, reversals, interleavings and sorts by every column, each with relabellings that change order, sign, spacing and magnitude",
  "Tests use one generated event in the order its generator wrote it.",
  [D, S, C, T, X], [("graph traversal", f"{D}: AdjacencyList._edge_relabel, to_sparse, nodes, roots, leaves"), ("selections", f"{S}: descendants, hierarchy, partition, clusters, tagging")])
p("C42", "Answers respect the symmetries of collider kinematics",
  "Turning an event about the beam, reflecting it, changing its unit of energy, boosting it along the beam, rotating it in space or splitting every particle in two changes each answer exactly as that symmetry prescribes, and several in turn compose. What the symmetry leaves alone stays the same within rounding: masses under all, transverse quantities, rapidity differences and jets under boosts, distances, clustering, prunings, partitions, clusters and tags under turns, reflections and units, event shapes under units and halving. What it moves, moves accordingly: azimuth by the angle, rapidity by the boost, momenta by the factor.",
  ["inputs"],
  "60 transformations from the symmetry groups and compositions of two of them, on a family of events",
  "Tests compare single values at one orientation and scale; an absolute threshold, a seam or a sign error shows only elsewhere.",
  [D, S, C, T, X], [("kinematics", f"{D}: MomentumArray"), ("distances", f"{D}: delta_R kernels"), ("selections", f"{S}: centroid_prune, partition, clusters, fastjet_clusters"), ("event shapes", f"{C}: thrust, spherocity, c_parameter")])

p("C43", "A failure inside an operation leaves no trace",
  "When a routine that an operation builds on fails half-way (out of memory, an interrupt, an error in numpy, scipy, pandas, fastjet or a compiled kernel), the operation raises or still gives its usual answer. The objects handed to it and the process-wide settings are as they were, and the same and all other queries give their usual answers afterwards. An object that was being written holds either its old values or the new ones, and its derived quantities match them.",
  ["crash points", "histories"],
  "every call and array operation made during every query and write, failing at every visit (first two and last of each place in long ones), on objects read before or not",
  "Tests never make a routine fail.",
  [D, S, C, T, X, "graphicle/base.py"], [("scoped settings", f"{C}: _thread_scope, np.errstate blocks"), ("remembered quantities", f"{D}: cached properties, _clear_cache, data setters"), ("working copies", f"{S}: partition_descendants, hierarchy, clusters")],
  state=[("objects and caches", "at the moment of the failure")])

p("C44", "NumPy sees a data array as its columns",
  "Converted by numpy (asarray, array, copy, stacking, another element type), a data array or mask group gives its current values in the shape of its columns, one row per particle, whatever was assigned, written in place, sliced, reversed or copied before. Conversions without a copy share the object's memory, so that writes are seen both ways; copies do not. numpy's functions (sorting, sets, statistics, selection, joining, searching) give the values they give on the plain columns, also with two objects or an object and an array, cast to the element type of the class where they hand back an object of it, and leave their operands unchanged.",
  ["inputs", "histories"],
  "every class, row count and history of edits up to a length, and in each state every conversion and numpy function of a list, alone and with a second operand",
  "Tests convert fresh objects once; a stale or lossy conversion shows after a write, or at another type or shape.",
  [D, "graphicle/base.py"], [("array protocol", f"{D}: __array__, __array_interface__, __array_wrap__, data properties"), ("copies", f"{D}: copy methods")],
  state=[("values", "after edits of every kind")])
