#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Quadrant algebra agrees with exact box geometry and the Morton curve",
 "For every quadrant or octant at any level, inside the root or in its surrounding ring, the relations (equality, order, ancestor, parent, sibling, family, descendant, nearest common ancestor, overlap, inside tests, successor, linear position and its inverse) and constructions (child, parent, ancestor, sibling, first and last descendant, face/edge/corner neighbor, corner node) agree with integer box geometry and with the space-filling curve defined by bit interleaving. Linear positions order quadrants of equal level exactly as the total order does, every construction is inverted by its counterpart, and the 128-bit position arithmetic agrees with exact arithmetic.",
 ["inputs"], "all pairs of valid quadrants at all levels up to the finest, all faces/edges/corners, all positions on the curve",
 "The tests sample a handful of quadrants of one small forest; the space has 2^60 to 2^90 quadrants and the deep levels (29, 18) and boundary rings where overflow and sign errors live are hardly touched.",
 ["src/p4est_bits.c", "src/p4est_bits.h", "src/p8est_bits.c"],
 [("Morton order and linear id", "src/p4est_bits.c: p4est_quadrant_compare, p4est_quadrant_linear_id, p4est_quadrant_set_morton, p4est_lid_*"),
  ("family relations", "src/p4est_bits.c: p4est_quadrant_is_ancestor, p4est_nearest_common_ancestor, p4est_quadrant_childrenv")],
 ["p4est_quadrant_* functions of p4est_bits.h / p8est_bits.h"])

prop("C02", "Neighbors across tree boundaries follow the coarse mesh topology",
 "For every quadrant and direction, the neighbor across a tree face, edge or corner is the box obtained by gluing the coarse cells along their shared vertices: the computed face, edge and corner neighbors, the transformed coordinates and the canonical representative of a shared point all describe the same place of the topological domain. Crossing and crossing back returns the original quadrant, and all trees meeting at a face, edge or corner agree on who meets there.",
 ["inputs", "configurations"], "all quadrants touching a tree boundary, all connectivities including periodic, self-adjacent, twisted and randomly re-oriented ones",
 "Tests cover a few fixed coarse meshes; the gluing has 8/24 orientations per face pair and arbitrary edge/corner classes, and errors show only for particular orientation and position combinations.",
 ["src/p4est_connectivity.c", "src/p8est_connectivity.c", "src/p4est_bits.c"],
 [("face gluing", "src/p4est_connectivity.c: p4est_find_face_transform, p4est_expand_face_transform; src/p4est_bits.c: p4est_quadrant_transform_face"),
  ("edge and corner gluing", "src/p8est_connectivity.c: p8est_find_edge_transform; src/p4est_connectivity.c: p4est_find_corner_transform; src/p4est_bits.c: p8est_quadrant_transform_edge, p4est_quadrant_transform_corner")],
 ["p4est_quadrant_face_neighbor_extra, *_edge_neighbor_extra, *_corner_neighbor_extra, p4est_neighbor_transform_*, p4est_connectivity_coordinates_canonicalize"])

prop("C03", "Coarse meshes are valid and preserved by completion, joining, permutation",
 "Every provided coarse mesh is consistent: face, edge and corner neighbor relations are symmetric, mutually consistent and agree with the shared vertices wherever these determine them. Completing or reducing a coarse mesh reproduces exactly the neighbor relations implied by its vertices, permuting the trees is a pure renumbering, joining two faces creates exactly that identification together with its implied edge and corner identifications, and the equality and equivalence tests return true exactly for equal and relabelled-equal meshes.",
 ["inputs", "configurations"], "all built-in and brick meshes with any sizes and periodicity, random hexahedral/quadrilateral meshes with randomly rotated trees, any permutation, any sequence of face joins",
 "The tests call a few constructors once and mostly rely on the code's own validity function.",
 ["src/p4est_connectivity.c", "src/p8est_connectivity.c"],
 [("construction and completion", "src/p4est_connectivity.c: p4est_connectivity_new_*, p4est_connectivity_new_brick, p4est_connectivity_complete, p4est_connectivity_reduce"),
  ("rewriting", "src/p4est_connectivity.c: p4est_connectivity_permute, p4est_connectivity_join_faces, p4est_connectivity_is_equal, p4est_connectivity_is_equivalent, p4est_connectivity_is_valid")],
 ["the public arrays of the connectivity structure and p4est_connectivity_is_valid/is_equal"])

prop("C04", "Coarse meshes survive serialization, broadcast and file input unchanged",
 "Writing a coarse mesh to a file, stream or memory buffer and reading it back, copying it, broadcasting it or sharing it between processes yields an equal mesh on every process, including user attributes. Reading a mesh description in the supported text format yields exactly the described vertices and elements, and malformed or truncated input is reported as failure without crashing.",
 ["inputs", "configurations", "schedules"], "all coarse meshes with and without vertices, attributes, edges and corners; all process counts; arbitrary truncation or corruption of the serialized bytes",
 "One mesh is saved and loaded by the tests; attribute sizes, empty arrays, meshes without vertices and damaged input are never tried.",
 ["src/p4est_connectivity.c", "src/p4est_io.c"],
 [("serialization", "src/p4est_connectivity.c: p4est_connectivity_sink, p4est_connectivity_source, p4est_connectivity_save, p4est_connectivity_load, p4est_connectivity_deflate, p4est_connectivity_inflate"),
  ("distribution and input", "src/p4est_connectivity.c: p4est_connectivity_bcast, p4est_connectivity_share, p4est_connectivity_mission, p4est_connectivity_copy, p4est_connectivity_read_inp_stream")],
 ["the loaded or received connectivity arrays; return values"])

prop("C05", "Refining a coarse mesh subdivides every tree and keeps its topology",
 "Uniformly refining a coarse mesh replaces each tree by the prescribed number of sub-cells per direction, ordered along the space-filling curve where the factor is a power of two, and the result is a valid mesh whose neighbor relations are exactly those of the subdivided cells. Its vertices interpolate the original tree geometry, and nothing is glued that was not glued before.",
 ["inputs", "configurations"], "all coarse meshes with vertices, all subdivision factors within memory",
 "The tests refine a few meshes and only check the validity function, not that the topology is that of the subdivision.",
 ["src/p4est_connrefine.c", "src/p4est_connectivity.c"],
 [("refinement through nodes", "src/p4est_connrefine.c: p4est_connectivity_refine")],
 ["arrays of the refined connectivity"])

prop("C06", "Every operation history leaves a valid linear forest covering the domain",
 "After any sequence of creation, refinement, coarsening, balance and partition on any number of processes, the union of all processes' leaves tiles every tree exactly once, is sorted along the space-filling curve within and across processes, and all derived counts, level histograms, tree ranges, process boundary positions and global offsets describe exactly those leaves. The forest's validity test agrees, and its revision number changes exactly when the mesh or its partition changes.",
 ["histories", "configurations", "inputs", "schedules"], "all operation histories, initial levels and minimum counts, coarse meshes, process counts including more processes than leaves",
 "Tests run a few fixed histories on two processes; the property quantifies over all histories, empty processes, single-quadrant trees and deep local refinement.",
 ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_communication.c"],
 [("uniform creation", "src/p4est.c: p4est_new_ext"),
  ("bookkeeping after change", "src/p4est_communication.c: p4est_comm_count_quadrants, p4est_comm_global_partition; src/p4est.c: p4est_refine_ext, p4est_coarsen_ext, p4est_balance_ext, p4est_partition_ext"),
  ("validity", "src/p4est_algorithms.c: p4est_is_valid, p4est_tree_is_complete")],
 ["public members of the forest and its trees; p4est_is_valid; p4est_revision"],
 [("leaves", "sorted quadrants per tree and process", "p4est_tree_t::quadrants"), ("partition", "first position and quadrant offset of each process", "p4est_t::global_first_position, global_first_quadrant")])

prop("C07", "Refinement splits exactly the chosen leaves and informs the application",
 "Refinement replaces a leaf by its children exactly if the application's decision says so, recursively if requested and never beyond the level limit, and leaves everything else untouched, including the stored user data. The decision, initialization and replacement callbacks are invoked exactly as documented: every decision on a leaf with its own data, every new leaf initialized once, every replacement reporting one outgoing parent and all its children.",
 ["inputs", "histories", "configurations"], "all decision functions, level limits, recursive or not, data sizes, previous histories and partitions",
 "Tests use two or three decision functions and count leaves; they do not compare leaf sets, data or callback sequences with a model.",
 ["src/p4est.c"], [("refinement loop", "src/p4est.c: p4est_refine_ext"), ("data allocation", "src/p4est_algorithms.c: p4est_quadrant_init_data, p4est_quadrant_free_data")],
 ["leaves and user data after the call; the recorded callback trace"])

prop("C08", "Coarsening merges exactly the chosen complete local families",
 "Coarsening replaces a complete family of leaves held by one process by its parent exactly if the application's decision says so, once or recursively as requested, and changes nothing else. The callbacks see complete families in order with their data, orphans are reported only when requested, each new parent is initialized once and each replacement reports all outgoing children and the one incoming parent.",
 ["inputs", "histories", "configurations"], "all forests, decision functions, recursive or not, with and without orphan reporting, partitions that split families",
 "Tests coarsen with fixed decisions; recursive merging in the middle of an array with a mixture of families and orphans is barely sampled and data is not followed.",
 ["src/p4est.c"], [("coarsening loop", "src/p4est.c: p4est_coarsen_ext")],
 ["leaves and user data after the call; the recorded callback trace"])

prop("C09", "Balance yields the coarsest 2:1 refinement of the forest, on any partition",
 "After balancing with respect to faces, edges or corners, neighboring leaves related that way, inside a tree or across tree boundaries, differ by at most one level, and the result is the coarsest such refinement of the input, whatever the process count or partition. (Face or edge balance of a coarse mesh in which more or fewer trees meet at an edge or corner than in a regular grid may refine more than that, never beyond full corner balance.) Balancing again changes nothing, untouched leaves keep their data, and the callbacks report each replaced leaf with the leaves that replace it.",
 ["inputs", "histories", "configurations", "schedules"], "all forests, coarse meshes, balance types, process counts and partitions, message schedules",
 "Tests compare a few meshes against stored checksums; the ripple across tree edges and corners with mixed orientations and many processes is where balance codes fail.",
 ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_balance.c"],
 [("local balance", "src/p4est_algorithms.c: p4est_complete_or_balance, p4est_balance_border; src/p4est_balance.c: p4est_balance_seeds"),
  ("parallel exchange", "src/p4est.c: p4est_balance_ext")],
 ["leaves after balance compared with an independent fixed-point model; p4est_is_balanced"])

prop("C10", "Partitioning redistributes leaves and data in order with the requested counts",
 "Partitioning never changes the global sequence of leaves nor any leaf's user data, and gives each process the documented share: equal up to one leaf without weights, exactly the requested counts when they are given, and with weights the contiguous split whose boundaries follow the cumulative weights. Partitioning for coarsening moves boundaries as documented so that no complete family is split, and the reported number of moved leaves is right.",
 ["inputs", "histories", "configurations", "schedules"], "all forests, data sizes, weight functions including zero and huge weights, process counts, given target counts",
 "Tests use small weights on two processes; extreme weights, empty processes, many processes and family correction at multiple adjacent boundaries are not sampled.",
 ["src/p4est.c", "src/p4est_algorithms.c"],
 [("target counts", "src/p4est.c: p4est_partition_ext; p4est_partition_for_coarsening; src/p4est_algorithms.c: p4est_partition_correction"),
  ("data movement", "src/p4est_algorithms.c: p4est_partition_given")],
 ["leaf sequence, user data, per-process counts, return value"])

prop("C11", "Results and checksums do not depend on the number of processes",
 "The same sequence of mesh operations gives the same global mesh and the same checksum for every process count and every partition taken in between. The checksum is known on all processes where documented, and differs when the meshes differ in a leaf.",
 ["histories", "configurations", "schedules"], "all partition-independent operation histories, all pairs of process counts and interleaved repartitions",
 "Tests run on two processes only, and compare a few stored numbers.",
 ["src/p4est.c", "src/p4est_algorithms.c"], [("checksum", "src/p4est.c: p4est_checksum, p4est_checksum_partition; src/p4est_algorithms.c: p4est_comm_checksum")],
 ["global leaf sequence and checksums of runs with different process counts"])

prop("C12", "The ghost layer is exactly the remote leaves touching the local ones",
 "The ghost layer contains exactly those leaves of other processes that touch a local leaf through a face, edge or corner as requested, inside or across trees, each once, sorted, with its owner, tree and local number at the owner. The mirrors are exactly the local leaves that are ghosts elsewhere, and the mirror lists by process correspond to the other processes' ghosts in order.",
 ["inputs", "configurations", "schedules"], "all balanced forests, coarse meshes, adjacency types, process counts and partitions, empty processes",
 "Tests construct ghosts on a few meshes with two processes and check only internal consistency.",
 ["src/p4est_ghost.c"], [("ghost construction", "src/p4est_ghost.c: p4est_ghost_new, p4est_ghost_new_check, p4est_quadrant_find_tree_corner_owners"), ("validity", "src/p4est_ghost.c: p4est_ghost_is_valid")],
 ["members of the ghost structure"])

prop("C13", "Ghost exchange delivers every owner's data and expansion adds one layer",
 "Exchanging ghost data delivers for every ghost exactly the bytes its owner supplied, for forest data, custom buffers and level windows, synchronous or split. Expanding a ghost layer adds exactly the remote leaves adjacent to ghosts or local leaves by the same adjacency, keeping all structure invariants, and ghost lookup functions return a ghost exactly if it exists.",
 ["inputs", "configurations", "schedules"], "all forests, partitions, process counts, data sizes, level windows, repeated expansions",
 "Two processes and fixed sizes are tested; with two processes an owner is never a third party of an expansion.",
 ["src/p4est_ghost.c"], [("exchange", "src/p4est_ghost.c: p4est_ghost_exchange_custom_levels_begin/end, p4est_ghost_exchange_data"), ("expansion", "src/p4est_ghost.c: p4est_ghost_expand, p4est_ghost_expand_internal"), ("lookup", "src/p4est_ghost.c: p4est_ghost_bsearch, p4est_ghost_contains, p4est_quadrant_exists")],
 ["received buffers and ghost structure"])

prop("C14", "Iteration visits every local volume, face, edge and corner exactly once",
 "Iterating over a balanced forest calls the application once for every leaf, and once for every face, edge and corner interface that touches a local leaf, hanging interfaces included once on the coarse side. Each call reports exactly the leaves on all sides with their tree, index, ghost or local flag, hanging status and orientation as they are in the mesh.",
 ["inputs", "configurations"], "all balanced forests, coarse meshes, ghost types, process counts and partitions",
 "Tests verify iteration on a few forests by internal recomputation on two processes.",
 ["src/p4est_iterate.c"], [("recursion", "src/p4est_iterate.c: p4est_iterate_ext, p4est_face_iterate, p4est_corner_iterate, p8est_edge_iterate")],
 ["arguments received by the callbacks"])

prop("C15", "Global nodes are numbered once, shared consistently and hang correctly",
 "The high-order node numbering gives every distinct node position of the continuous space one global number, the same on all processes and for all elements touching it, with hanging faces and edges referring to the nodes of the coarser neighbor and flagged by the face code. The owned ranges partition the global numbers and the sharing lists name exactly the processes that refer to each node, so that sharing and reduction deliver the owner's values.",
 ["inputs", "configurations", "schedules"], "all balanced forests, degrees (including -1 and the face/edge/corner lattice), coarse meshes, process counts and partitions",
 "Tests compare geometry of nodes on a few meshes with two processes; ownership with three or more sharers is never exercised.",
 ["src/p4est_lnodes.c"], [("node numbering", "src/p4est_lnodes.c: p4est_lnodes_new"), ("sharing", "src/p4est_lnodes.c: p4est_lnodes_share_owned_begin, p4est_lnodes_share_all_begin, p4est_lnodes_decode"), ("support", "src/p4est_lnodes.c: p4est_ghost_support_lnodes, p4est_ghost_expand_by_lnodes, p4est_partition_lnodes")],
 ["members of the lnodes structure, received share buffers"])

prop("C16", "Corner node numbering identifies equal points and hanging nodes",
 "The low-order node numbering maps each corner of each local leaf to an independent node or to a hanging node that references exactly the independent nodes it interpolates. Two corners anywhere in the forest get the same global node exactly if they are the same point of the domain.",
 ["inputs", "configurations", "schedules"], "all fully balanced forests, coarse meshes, process counts and partitions",
 "Tests check structural validity on few meshes with two processes.",
 ["src/p4est_nodes.c"], [("numbering", "src/p4est_nodes.c: p4est_nodes_new")], ["members of the nodes structure"])

prop("C17", "Mesh neighbor tables describe exactly the adjacent leaves",
 "The mesh tables and the neighbor queries list, for every local leaf and every face, edge and corner as requested, exactly the local or ghost leaves adjacent there, with the relative size, the number of the touching face or corner and the relative orientation, including several neighbors across hanging faces and several trees meeting at a corner. Level, tree and process lookup tables agree with the forest.",
 ["inputs", "configurations"], "all balanced forests, coarse meshes, mesh options, process counts and partitions",
 "Tests compare with fixed small examples or print statistics.",
 ["src/p4est_mesh.c"], [("tables", "src/p4est_mesh.c: p4est_mesh_new_params, mesh_iter_face, mesh_iter_corner"), ("queries", "src/p4est_mesh.c: p4est_mesh_get_neighbors, p4est_mesh_face_neighbor_next")], ["mesh structure members, query results"])

prop("C18", "A saved forest reloads identically on any number of processes",
 "Saving a forest and loading it on the same or another number of processes, with or without its data, reproduces the same coarse mesh, global leaf sequence and user data, and the partition requested. The file written does not depend on the process count or partition when saved so.",
 ["inputs", "histories", "configurations", "schedules"], "all forests, data sizes, saving and loading process counts, load options, from file or stream",
 "Tests save and load on the same two processes.",
 ["src/p4est.c", "src/p4est_io.c", "src/p4est_connectivity.c"], [("file format", "src/p4est.c: p4est_save_ext, p4est_load_ext, p4est_source_ext"), ("deflation", "src/p4est_io.c: p4est_deflate_quadrants, p4est_inflate")], ["loaded forest, file bytes"])

prop("C19", "Searches reach every matching leaf and process and obey the pruning protocol",
 "The top-down searches over local leaves, over the partition and over both call the application exactly for the ancestors and leaves or process ranges that the documented recursion visits, with the right tree, indices and process ranges, and pass a point further down exactly if the application accepted it. Binary searches and range queries return the position defined by the order.",
 ["inputs", "configurations", "histories"], "all forests, partitions including empty processes, point sets and accept/reject decisions, orderings of points",
 "Tests search one tree with one point set.",
 ["src/p4est_search.c"], [("top-down search", "src/p4est_search.c: p4est_search_local, p4est_search_partition, p4est_search_all, p4est_search_reorder"), ("binary search", "src/p4est_search.c: p4est_find_lower_bound, p4est_find_higher_bound, p4est_split_array, p4est_find_range_boundaries, p4est_find_partition")], ["callback traces and return values"])

prop("C20", "Data transfer between two partitions delivers each leaf's data to its owner",
 "Transferring fixed-size data, variable-size data or counted items from one partition of a leaf sequence to another delivers to every process, in leaf order, exactly the bytes that belong to its leaves. It does so in the blocking and in the split begin/end form, even when other messages are in flight.",
 ["inputs", "configurations", "schedules"], "all pairs of partitions, data sizes including zero, per-leaf sizes, process counts, message schedules",
 "The test uses one refinement history with two processes.",
 ["src/p4est_communication.c"], [("transfer", "src/p4est_communication.c: p4est_transfer_fixed_begin, p4est_transfer_custom_begin, p4est_transfer_items_begin, p4est_transfer_assign_comm")], ["received buffers"])

prop("C21", "Ownership queries name the unique process that holds each position",
 "For every position of every tree and every partition, including runs of empty processes, the owner queries, overlap tests, partition search and per-tree counts name exactly the process(es) holding the leaf or range asked for, on every process alike. Partition header, parallel environment and communicator helpers report the same facts.",
 ["inputs", "configurations"], "all partitions and positions",
 "Two processes never make an empty process between non-empty ones.",
 ["src/p4est_communication.c", "src/p4est_search.c"], [("owner search", "src/p4est_communication.c: p4est_comm_find_owner, p4est_comm_is_owner, p4est_bsearch_partition, p4est_comm_is_empty, p4est_comm_count_pertree, p4est_comm_neighborhood_owned, p4est_comm_sync_flag; src/p4est_search.c: p4est_find_partition")], ["return values on each process"])

prop("C22", "The adaptation wrapper applies all marks and keeps its structures in step",
 "The wrapper's adapt, partition and complete cycle refines every leaf marked for refinement, coarsens families whose members are all marked and nothing else except for what balance requires, keeps ghost layer and mesh consistent with the current forest, and reports in order each leaf's unchanged, refined or coarsened state. The partition step reports exactly which leaves stayed.",
 ["histories", "inputs", "configurations"], "all mark patterns, weights, coarsening delays and histories of cycles, process counts",
 "Tests run random marks but check only that nothing asserts.",
 ["src/p4est_wrap.c"], [("cycle", "src/p4est_wrap.c: p4est_wrap_adapt, p4est_wrap_partition, p4est_wrap_complete, p4est_wrap_mark_refine, p4est_wrap_mark_coarsen"), ("leaf iteration", "src/p4est_wrap.c: p4est_wrap_leaf_first, p4est_wrap_leaf_next")], ["forest, flags, ghost and mesh of the wrapper"])

prop("C23", "Exported unstructured mesh data describe exactly the forest's cells",
 "The exported cone, orientation and hierarchy arrays for unstructured mesh libraries describe exactly the local cells and their overlap: each point's boundary, orientation, parent and coordinates are those of the leaf it came from. Points shared between processes are linked to the one owner's point.",
 ["inputs", "configurations", "schedules"], "all fully balanced forests, coarse meshes, overlaps, process counts and partitions",
 "The test prints arrays for one mesh.",
 ["src/p4est_plex.c"], [("export", "src/p4est_plex.c: p4est_get_plex_data_ext, p4est_plex_data_int")], ["exported arrays"])

prop("C24", "The layered column forest keeps columns complete under all operations",
 "After any history of creation, horizontal and vertical refinement and coarsening, balance and partition on any number of processes, every column of the layered forest is tiled exactly once by its layers in order and each horizontal leaf refers to its own range of layers, all owned by one process. Decisions, data and counts follow the same rules as for the plain forest, and saved forests reload identically. Balance brings columns and layers to 2:1 independent of the partition, and the ghost layers and node numbers of the layered forest follow from those of its columns.",
 ["histories", "inputs", "configurations", "schedules"], "all histories, coarse meshes, root layer counts, process counts, data sizes",
 "The test runs one fixed history.",
 ["src/p6est.c", "src/p6est_ghost.c", "src/p6est_lnodes.c", "src/p6est_profile.c"], [("column operations", "src/p6est.c: p6est_refine_columns, p6est_refine_layers, p6est_coarsen_columns, p6est_coarsen_layers, p6est_balance, p6est_partition, p6est_save, p6est_load")], ["columns, layers and user data"])

prop("C25", "Copies, rebuilt and deflated forests are equal and independent",
 "Copying a forest, deflating and inflating it or rebuilding it leaf by leaf yields a forest with the same leaves, partition and (where requested) data, equal by the equality test, and independent of the original. The equality test is true exactly for equal forests and, when asked, equal data.",
 ["inputs", "histories", "configurations"], "all forests, data sizes, subsets of leaves kept when rebuilding",
 "Tests use one forest and one data size.",
 ["src/p4est.c", "src/p4est_build.c", "src/p4est_io.c", "src/p4est_algorithms.c"], [("copy and equality", "src/p4est.c: p4est_copy_ext, p4est_reset_data; src/p4est_algorithms.c: p4est_is_equal"), ("rebuild", "src/p4est_build.c: p4est_build_new, p4est_build_add, p4est_build_complete; src/p4est_io.c: p4est_deflate_quadrants, p4est_inflate")], ["resulting forest"])

prop("C26", "A forest built from points contains every point with at most the given count",
 "Creating a forest from points distributed over the processes yields a valid forest in which no leaf above the finest level holds more points than allowed and every leaf that was split had to be. The points come back in the order of the forest, none lost and none invented, and each process's part of the forest begins at its first point.",
 ["inputs", "configurations", "schedules"], "all point sets including duplicates, empty processes and clustered points, all limits and process counts",
 "The test uses one input file and two processes.",
 ["src/p4est_points.c"], [("creation", "src/p4est_points.c: p4est_new_points")], ["leaves and points after creation"])

prop("C27", "Collective operations end under every message schedule with the same result",
 "Every collective operation, called alike by all processes, finishes for every legal ordering, buffering and delay of messages, leaves no unreceived message or open request behind and returns all memory when its objects are destroyed. Its result does not depend on the schedule.",
 ["schedules", "configurations", "histories"], "all interleavings of ranks, eager or rendezvous sends, any matching order allowed by MPI, all process counts",
 "The tests see whatever schedule two local processes happen to produce.",
 ["src/p4est.c", "src/p4est_ghost.c", "src/p4est_lnodes.c", "src/p4est_communication.c", "src/p4est_points.c"],
 [("point-to-point exchange", "src/p4est.c: p4est_balance_ext; src/p4est_ghost.c; src/p4est_lnodes.c; src/p4est_communication.c")], ["termination, leftover messages, memory balance, results per schedule"])

prop("C28", "Geometry maps are continuous across trees and agree with the tree vertices",
 "The geometry attached to a coarse mesh maps each reference point to the documented position: tree corners map to the tree's vertices where these define the shape, and points identified across a tree boundary map to the same place. Quadrant corner coordinates follow the same map.",
 ["inputs", "configurations"], "all provided geometries, all trees and reference points",
 "Only picture output exists in the tests.",
 ["src/p4est_geometry.c", "src/p8est_geometry.c", "src/p4est_connectivity.c"], [("maps", "src/p4est_geometry.c: p4est_geometry_new_*; p4est_qcoord_to_vertex")], ["mapped coordinates"])

prop("C29", "Visualization output contains every leaf once with its data",
 "Visualization files written by all processes together contain exactly one cell per leaf with its corner coordinates, level, tree and process number and any data attached, and can be parsed back to exactly that. The result does not depend on the write options other than in representation, and output that could not be written completely is reported by the return values.",
 ["inputs", "configurations"], "all forests, geometries, scale factors, field sets, binary or compressed output, process counts",
 "Tests never read the files.",
 ["src/p4est_vtk.c"], [("writer", "src/p4est_vtk.c: p4est_vtk_write_header, p4est_vtk_write_cell_dataf, p4est_vtk_write_point_dataf, p4est_vtk_write_footer")], ["parsed files"])

prop("C30", "A tetrahedral mesh is turned into a valid hexahedral coarse mesh",
 "Reading a tetrahedral mesh from node and element files and converting it yields one hexahedron per tetrahedron corner, with vertices at the corners, edge, face and volume midpoints of the tetrahedra, right-handed and glued exactly where the tetrahedra share faces or edges. Orientation repair flips exactly the left-handed tetrahedra and reports their number. Files that contradict themselves are rejected without a crash.",
 ["inputs"], "all tetrahedral meshes given by files",
 "The tests run no such conversion on generated meshes.",
 ["src/p8est_tets_hexes.c"], [("conversion", "src/p8est_tets_hexes.c: p8est_connectivity_new_tets, p8est_tets_read, p8est_tets_make_righthanded")], ["resulting connectivity"])

prop("C31", "Linear octree algorithms are exact on arbitrary lists of octants",
 "For any list of octants of one tree, the predicates sorted, linear, complete and almost sorted say exactly what they name, and the checksum depends on the listed octants only. Linearization keeps exactly the octants that contain no later one, in order, frees the data of the others and counts them. Completing a region yields the coarsest octants that fill the curve between two octants. Completing a process's part of a tree keeps its octants and fills its gaps up to the bounds of the part with the coarsest octants, calling back once for each new one. Balancing a part gives a linear complete part in which octants within the relation differ by at most one level, that refines the input, is no finer than balancing the whole tree would be, and equals it where the process owns the whole tree. Removing what is not owned keeps exactly the octants that begin in the process's range. Level counters, maximum level and user data agree with the result.",
 ["inputs"], "all lists of octants of a tree, overlapping, with gaps, at all levels, all positions of the process bounds and all balance relations",
 "The tests reach these algorithms only through complete forests of two processes, so unsorted, overlapping and gapped lists, bounds inside a tree at arbitrary positions, and the deepest levels do not occur.",
 ["src/p4est_algorithms.c", "src/p4est_algorithms.h"],
 [("predicates", "src/p4est_algorithms.c: p4est_tree_is_sorted, p4est_tree_is_linear, p4est_tree_is_almost_sorted, p4est_tree_is_complete"),
  ("completion", "src/p4est_algorithms.c: p4est_complete_region, p4est_complete_subtree, p4est_linearize_tree"),
  ("local balance", "src/p4est_algorithms.c: p4est_balance_subtree, p4est_balance_subtree_ext"),
  ("ownership", "src/p4est_algorithms.c: p4est_tree_remove_nonowned, p4est_partition_correction, p4est_next_nonempty_process")],
 ["the resulting lists of octants, counters, callbacks and return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d in P: jsonschema.validate(d, s)
    print("ok", len(P))
except ImportError:
    print("written", len(P))
