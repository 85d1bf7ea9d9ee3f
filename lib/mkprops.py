#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=["include/kigumi/" + f if not f.startswith(("cli", "README", "docs")) else f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               hook_needed=hook)))
I = "include/kigumi/"

prop("C01", "All sixteen Boolean operators are pointwise on point membership",
 "For any two regions whose boundaries are valid (no degenerate faces, no self-intersection, closed or open and clipped by a common convex region, manifold or not, any number of components), the region returned for each of the 16 operators contains exactly the points whose membership in the operands makes the operator's truth-table entry true, for every point not on an operand boundary. The result is regularised: it has boundary exactly where the membership changes, so no boundary survives between two points with equal membership.",
 ["inputs", "programs", "configurations"],
 "all pairs of valid operands (disjoint, nested, crossing, touching in vertices/edges/faces, coplanar with equal or opposite orientation, identical, complemented, open-clipped, non-manifold), all 16 operators, all points, any chain of operations",
 "The tests sample two translated cubes; they do not quantify over operand configurations, over operators, or over points.",
 ["Boolean_operator.h", "Boolean_region_builder.h", "Mix.h", "Corefine.h", "Classify_faces_locally.h", "Classify_faces_globally.h", "Propagate_face_tags.h", "Extract.h", "Triangulation.h", "Find_coplanar_faces.h", "README.md"],
 [("co-refinement of both boundaries along their intersection", I+"Corefine.h"), ("tagging every sub-face exterior/interior/coplanar/opposite", I+"Classify_faces_locally.h, Classify_faces_globally.h"), ("operator masks select and orient sub-faces", I+"Boolean_operator.h, Extract.h")],
 ["Boolean_region_builder::operator()", "Region::boundary", "Region::bounded_side"])

prop("C02", "The empty set and the universe behave as exact algebraic elements",
 "The empty set and the universe are accepted as operands on either side of every operator, and an operation whose mathematical result is the empty set or the universe yields exactly that special region, never a region with a boundary, the other special region, or an exception. Special operands compose with boundary-defined ones under the same truth table as everything else (for example A minus A is empty, A union complement(A) is the universe).",
 ["inputs", "programs", "histories"],
 "all operators x all operand kinds x all coincidence relations between operands (equal, complementary, disjoint, nested, identical with different triangulations), and chains that pass through special regions",
 "Only a fixed table for one cube is tested; special results that arise from coincident boundaries, partly coincident components or long chains are not reached.",
 ["Region.h", "Boolean_region_builder.h", "Extract.h"],
 [("kind tag of a region", I+"Region.h"), ("special-operand branch and empty-extraction decision", I+"Boolean_region_builder.h")],
 ["Region::is_empty", "Region::is_full", "Boolean_region_builder::operator()"],
 [("kind", "EMPTY / FULL / BOUNDARY_DEFINED", I+"Region.h")])

prop("C03", "Face data and orientation are inherited from the source face",
 "Every face of a result lies within a face of one of the operands and carries exactly that face's user data, oriented so that the result lies on its negative side. Where the two operands' boundaries coincide, the data comes from the operand the caller said to prefer (the first by default), for every operator and for both equal and opposite orientations; elsewhere it comes from the operand that has boundary there.",
 ["inputs", "programs", "histories"],
 "all operators, both preferences, all overlaps of the operands' faces, data carried through chains of operations, save/load and copies",
 "Tests check sets of ids for one configuration of two cubes and never which face carries which id nor chains.",
 ["Extract.h", "Boolean_operator.h", "Mix.h", "Mixed.h", "Boolean_region_builder.h", "Triangle_mesh.h", "Triangle_soup.h"],
 [("sub-faces copy data of the face they came from", I+"Mix.h"), ("coplanar/opposite masks honour the preference", I+"Boolean_operator.h")],
 ["Region::boundary().data(f)", "Region::boundary().face(f)"])

prop("C04", "Results are valid boundaries and can be operated on again",
 "If the operands are valid, every result boundary is valid: no degenerate faces, no unused or duplicated vertices, no self-intersection, balanced edges (each undirected edge is used equally often in both directions, except on the border of the clipping region), with indices in range. A result can therefore be used as an operand of any further operation and any finite expression evaluates consistently with its mathematical value.",
 ["inputs", "programs", "histories"],
 "all operators, all valid operands, all expressions (finite chains of operations)",
 "No test inspects the topology of a result or feeds a result to another operation.",
 ["Corefine.h", "Triangulation.h", "Intersection_point_inserter.h", "Face_face_intersection.h", "Extract.h", "Mix.h"],
 [("shared intersection points are interned so both operands' sub-faces agree", I+"Intersection_point_inserter.h, Corefine.h"), ("constrained triangulation of each crossed face", I+"Triangulation.h")],
 ["Region::boundary()"])

prop("C05", "Results depend only on the operands, not on history, threads or timing",
 "Building and evaluating Boolean operations gives equivalent regions regardless of the configured number of threads, of how the worker threads are scheduled, of which or how many operations were performed before in the same thread or process, of whether other threads evaluate other operations at the same time, and of whether operands are used repeatedly or shared. The operands themselves are never changed.",
 ["schedules", "histories", "configurations", "programs"],
 "all interleavings of worker threads, all thread counts, all prior histories in a thread, concurrent callers on shared operands",
 "Each test runs one operation per process state with default threading; schedules and histories are not varied, and results of different thread counts are never compared.",
 ["Mix.h", "Corefine.h", "Classify_faces_locally.h", "Classify_faces_globally.h", "Find_possibly_intersecting_faces.h", "parallel_do.h", "Triangle_soup.h", "Find_defects.h"],
 [("per-worker local states merged under a lock", I+"parallel_do.h"), ("thread-local scratch objects", I+"Corefine.h, Mix.h, Classify_faces_globally.h"), ("lazily built index guarded by a mutex", I+"Triangle_soup.h")],
 ["Boolean_region_builder", "Region::bounded_side", "Find_defects"])

prop("C06", "The parallel loop runs every element once and reports failures",
 "A parallel loop applies its body to every element of the range exactly once, never uses more concurrent workers than configured, gives each worker its own copy of the initial state, and merges each finished worker's state exactly once with no two merges overlapping; it returns only when all workers have finished. If bodies throw, one of the thrown exceptions reaches the caller after all workers have stopped, an empty range calls nothing, and no element is ever processed twice.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "all interleavings of workers, all range sizes and thread counts, all subsets of elements whose body throws, throwing merges",
 "There is no test of the loop; uncontrolled runs visit a handful of interleavings.",
 ["parallel_do.h", "threading.h"],
 [("shared index handed out atomically", I+"parallel_do.h"), ("mutex around merging and exception recording", I+"parallel_do.h")],
 ["calls of body and post, return/throw of parallel_do"],
 [("next_index", "next element to hand out", I+"parallel_do.h"), ("exception_ptr", "first recorded exception", I+"parallel_do.h")])

prop("C07", "Parallel sorting yields the ordered permutation of its input",
 "Parallel sorting leaves the range ordered by the given comparator and a permutation of its original content, for every size, content, comparator (strict weak order), thread count and schedule, without touching anything outside the range and without concurrent unordered accesses to the same element.",
 ["schedules", "inputs", "configurations"],
 "all sizes around the chunking thresholds, all thread counts including non-powers of two, all interleavings of the merge phases",
 "There is no test of the sort.",
 ["parallel_sort.h", "threading.h", "Triangle_mesh.h"],
 [("per-worker sort followed by barrier-separated pairwise merges", I+"parallel_sort.h")],
 ["the range after parallel_sort"])

prop("C08", "Spatial queries over faces report every face whose box is hit, once",
 "A box query on a face collection's spatial index reports exactly the faces whose bounding boxes overlap the query box, each once, and a ray query reports at least every face that the ray meets and only faces whose box the ray could meet, each at most once; this holds for any number of faces (including none and one), any arrangement, any thread count during construction, and independent of previous queries.",
 ["inputs", "schedules", "configurations", "histories"],
 "all collections of boxes (all sizes, duplicates, ties in centres, degenerate boxes), all queries, all construction schedules",
 "The index is only exercised through whole Boolean operations on two small cubes.",
 ["AABB_tree/AABB_tree.h", "AABB_tree/AABB_node.h", "AABB_tree/AABB_leaf.h", "Triangle_soup.h", "mesh_utility.h"],
 [("recursive median split with enclosing boxes", I+"AABB_tree/AABB_tree.h")],
 ["AABB_tree::get_intersecting_leaves"])

prop("C09", "Point location answers inside, boundary or outside correctly",
 "Asking a region for the side of a point answers boundary exactly when the point lies on the region's boundary, bounded side exactly when it is strictly inside and unbounded side exactly when strictly outside (inside and outside of the clipping region's section for open boundaries), never throwing for a valid closed boundary; the empty set and the universe answer outside and inside for every point. Answers do not depend on earlier queries.",
 ["inputs", "histories"],
 "all valid regions and all points (including points aligned with vertices, edges and face planes, and points with non-representable coordinates)",
 "One test queries a handful of points of one cube.",
 ["Side_of_triangle_soup.h", "Region.h", "mesh_utility.h"],
 [("nearest hit of a ray towards a face centroid, ambiguous rays skipped", I+"Side_of_triangle_soup.h")],
 ["Region::bounded_side"])

prop("C10", "Saved regions load back exactly, from a stable portable format",
 "Writing a region and reading it back yields a region of the same kind with identical exact coordinates (including coordinates that no floating-point number represents), the same faces in the same order and the same face data, and reading replaces whatever the destination held before. The byte sequence of a given region is fixed by the format (little-endian scalars, tagged exact or double coordinates), so that files are portable and re-writing a loaded region reproduces the file.",
 ["inputs", "histories", "configurations"],
 "all regions (special, boundary-defined, exact coordinates of any size and sign), all destinations' prior contents, files written by conforming writers",
 "There is no test of the format.",
 ["Region_io.h", "Region.h", "Triangle_soup.h", "io.h", "Mesh_indices.h"],
 [("per-type Read/Write specialisations", I+"io.h, Region.h, Triangle_soup.h")],
 ["write_kigumi_region / read_kigumi_region on streams and files"])

prop("C11", "I/O failures are reported, never turned into bogus success",
 "Reading a region file that ends or fails before its last byte, or that contains an invalid kind, a negative count, a zero denominator or an out-of-range vertex index, reports failure; so does reading a text mesh with a malformed header, vertex line or face line, an out-of-range vertex index, fewer or more elements than declared (OFF, PLY) or a failing stream. A failing read neither throws, crashes, hangs nor exhausts memory and leaves the destination's previous value intact. Writing reports success only if all of the data was accepted by the underlying stream or file, whatever byte the failure happens at.",
 ["fault_sequences", "crash_points", "inputs"],
 "every truncation point of every file, every write-failure point (disk full, closed pipe), malformed counts and tokens, missing files",
 "No test injects an I/O fault.",
 ["Region_io.h", "Triangle_soup_io.h", "io.h", "io/obj.h", "io/off.h", "io/ply.h", "io/ascii.h"],
 [("stream state checked at the end of read/write", I+"Region_io.h, io/*.h")],
 ["return value and destination of read_*/write_*"])

prop("C12", "OBJ, OFF and PLY files convey exactly the mesh they describe",
 "Reading a well-formed ASCII OBJ, OFF or PLY file yields exactly the vertices and faces it describes - comments and blank lines where the format has them, extra per-vertex or per-face attributes, LF or CRLF line endings and numeric spellings make no difference, polygons become fans around their first vertex, and negative or slash-separated indices in OBJ are resolved as the format defines; binary variants are refused. Writing a mesh and reading it back in the same format yields the same faces and every coordinate as the double it was (one of the two adjacent doubles if it is not one), with either index style for OBJ.",
 ["inputs", "programs"],
 "all well-formed files of the supported dialects, all meshes with double coordinates, all combinations of source and destination format",
 "There are no tests of the mesh readers and writers.",
 ["io/obj.h", "io/off.h", "io/ply.h", "io/ascii.h", "Triangle_soup_io.h", "io.h"],
 [("line/token oriented parsers", I+"io/obj.h, io/off.h, io/ply.h"), ("dispatch on file extension", I+"Triangle_soup_io.h")],
 ["read_triangle_soup / write_triangle_soup"])

prop("C13", "The defect report names exactly the defective elements",
 "After coincident vertices are identified, the defect report lists exactly: the unused vertices; the edges used by one face only; the edges used by exactly two faces, in the same direction; the edges used by more than two faces; the vertices whose faces (those without repeated vertices) do not form a single fan or cycle of at least three faces; the faces with repeated vertices; the faces with distinct collinear vertices; and the faces in intersecting pairs that meet in more than a common vertex or edge (at least one face of each such pair, and none that is in no such pair). A valid mesh yields empty lists.",
 ["inputs", "schedules", "histories"],
 "all triangle collections, including degenerate, duplicate, non-manifold and self-intersecting ones, any thread count, repeated analyses in one process",
 "The analysis has no test.",
 ["Find_defects.h", "Dense_undirected_graph.h", "Point_list.h", "Face_face_intersection.h"],
 [("half-edge counting", I+"Find_defects.h"), ("link graph per vertex", I+"Dense_undirected_graph.h, Find_defects.h"), ("pairwise triangle intersection", I+"Find_defects.h")],
 ["Find_defects accessors"])

prop("C14", "The intersection of two triangles is reported completely and consistently",
 "For any two non-degenerate triangles the symbolic intersection lists exactly the corners of their common convex set, each once and named by the pair of lowest-dimensional features (vertex, edge or interior) of the two triangles that contains it, in cyclic order around the common set when there are more than two. The points constructed for these corners lie exactly on both named features, and a corner shared by several triangle pairs is constructed once and identified across all of them.",
 ["inputs"],
 "all pairs of non-degenerate triangles in all relative positions (generic, touching, collinear, coplanar), all vertex orders, shared vertices",
 "Tests sample one representative of some configurations; position types combine in hundreds of ways and vertex orders multiply them.",
 ["Face_face_intersection.h", "Intersection_point_inserter.h", "Triangle_region.h", "Point_list.h"],
 [("sign-based case analysis", I+"Face_face_intersection.h"), ("interning of constructed points by symbolic key", I+"Intersection_point_inserter.h")],
 ["Face_face_intersection::operator()", "Intersection_point_inserter::insert"])

prop("C15", "Faces around an intersection edge are classified soundly",
 "When the faces of the two meshes around one intersection edge are classified, every face that receives interior or exterior really lies inside or outside the other mesh there, every pair of coinciding faces is marked coplanar or opposite according to their orientations, nothing else is, and everything is decided as soon as two neighbouring faces that coincide with nothing run in equal directions (without coinciding faces: exactly when the directions of the faces alone determine the positions), where the faces of both meshes balance; at the border of the region the meshes are clipped to, where they do not, at least such neighbours themselves are decided. Faces beyond the edge follow up to the next intersection edge. The outcome does not depend on the order, rotation or labelling of the faces.",
 ["inputs", "schedules"],
 "all numbers and cyclic orders of faces of both meshes around an edge with consistent orientations, all directions, all storage orders, edges processed in any order",
 "Tests enumerate a few hand-written fans with fixed directions.",
 ["Classify_faces_locally.h", "Propagate_face_tags.h", "Triangle_mesh.h"],
 [("radial sort around the edge and alternation argument", I+"Classify_faces_locally.h")],
 ["tags after Classify_faces_locally"])

prop("C16", "Mesh adjacency queries agree with the faces",
 "After a mesh is finalised, the faces reported around an edge or a face are exactly the faces that contain both ends of that edge, or the other faces that share with the given face an edge that is not a declared border edge; this holds for every triangle list, including non-manifold ones, isolated vertices, and any thread count, and edges can be named in either direction.",
 ["inputs", "configurations"],
 "all triangle lists and border sets",
 "Adjacency has no direct test.",
 ["Triangle_mesh.h", "Mesh_iterators.h", "Mesh_entities.h", "Mesh_indices.h"],
 [("sorted vertex-to-face index", I+"Triangle_mesh.h"), ("circulating iterators", I+"Mesh_iterators.h")],
 ["Triangle_mesh::faces_around_edge / faces_around_face"])

prop("C17", "Warnings are raised for partial intersections and only then",
 "An operation on operands whose meshes are valid and whose intersection separates them consistently reports no warning. When a mesh is only partially cut by the other, so that one connected patch would have to be both inside and outside, the warning naming that mesh is reported, and not a warning naming a mesh whose patches are all consistently classified.",
 ["inputs", "schedules"],
 "all valid operand pairs; all pairs where an open mesh ends inside the other's faces; all schedules of the classification workers",
 "No test looks at warnings from a Boolean operation.",
 ["Warnings.h", "Propagate_face_tags.h", "Classify_faces_globally.h", "Mix.h", "Boolean_region_builder.h"],
 [("conflicting tags met during propagation set the flag of the face's mesh", I+"Propagate_face_tags.h"), ("flags merged from all workers", I+"Mix.h, Classify_faces_globally.h")],
 ["Boolean_region_builder::warnings()"])

prop("C18", "The command line tool does what its documentation says",
 "The command line tool's boolean, convert and defects commands produce the output that the library operation they stand for produces on the given inputs (files of any supported format, or the special operands), write exactly the outputs named, and accept the documented options in named or positional form. Each failing request (missing or malformed file, unknown option, command or format, missing argument, unwritable output) ends with a message on the error stream and a non-zero exit status, and every successful one with status zero; partial intersections are warned about on the error stream.",
 ["inputs", "configurations", "fault_sequences"],
 "all commands, options, operators, file formats and failure causes",
 "The tool has no tests.",
 ["cli/main.cc", "cli/boolean_command.cc", "cli/convert_command.cc", "cli/defects_command.cc", "cli/utility.h", "docs/cli.md"],
 [("sub-command dispatch and option parsing", "cli/main.cc, cli/*_command.cc")],
 ["exit status, stdout/stderr, output files"])

prop("C19", "Scoped options nest, restore and stay within their thread",
 "Options set for a scope are in force in the thread that set them for exactly the lifetime of that scope, nest arbitrarily, and the previous options are back when the scope ends, also when it ends by an exception; other threads never observe them. The requested number of threads is clamped between one and the hardware's concurrency and defaults to the latter.",
 ["programs", "histories", "schedules"],
 "all nestings of scopes, all interleavings of threads, all requested values including zero and the maximum",
 "There is no test of options.",
 ["Context.h", "threading.h"],
 [("thread-local current value with backup in the scope object", I+"Context.h"), ("clamping setter", I+"threading.h")],
 ["Context::current", "Threading_options::num_threads"])

prop("C20", "Mesh objects are values: copies, moves and edits never leak or go stale",
 "A face collection or region behaves as a value: copying, assigning (including to itself), moving, and then editing one object never changes another, copies have the same vertices, faces and data, and queries that use internal caches always answer for the object's current content - after edits, assignments, moves and copies, and also when several threads query the same object at once.",
 ["programs", "histories", "schedules"],
 "all sequences of construct/copy/move/assign/add/query operations over several objects, concurrent readers",
 "Copies and assignments after a query are never exercised by the tests.",
 ["Triangle_soup.h", "Region.h"],
 [("hand-written copy/move members dropping or moving the cached index", I+"Triangle_soup.h"), ("mutex around lazy construction", I+"Triangle_soup.h")],
 ["Triangle_soup accessors and aabb_tree", "Region::bounded_side"],
 [("cached index", "spatial index of the faces at the time it was built", I+"Triangle_soup.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
