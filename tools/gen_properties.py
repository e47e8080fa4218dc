#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
D='src/domain/'; G=D+'geometrics/'; M=D+'mesh/'; C=D+'conflicts/'; U='src/utils/'; I='src/infra/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

prop("G01","Bounding boxes are exact",
 "The bounding box reported for a polygon (any non-empty vertex list) and for a segment contains every vertex, and each of its four sides passes through some vertex.",
 ["inputs"],"every non-empty vertex list of any length and every segment orientation, all finite coordinates",
 "Tests sample a handful of 3-5 vertex shapes; a wrong extremum on one side for one vertex order is invisible to them, and the statement ranges over every list length.",
 [G+"polygon.cpp",G+"segment.cpp",G+"bounding.hpp"],[("polygon bounding fold",G+"polygon.cpp: detect_bounding"),("segment bounding",G+"segment.cpp: bounding")],["Polygon::bounding","bounding(Segment)"])
prop("G02","Overlap tests are exact and symmetric",
 "Two 1D ranges, two boxes, or two polygon heights are reported as overlapping exactly when they share at least one point (touching counts), the strict box test exactly when they share interior area, and a coordinate is reported inside a range exactly when it lies between its ends, ends included. The answer does not depend on the order of the two operands, and a polygon height given by two coordinates in any order covers exactly the span between them.",
 ["inputs"],"every pair of well-formed ranges, boxes and heights over all finite coordinates",
 "Tests try a few placements; the boundary cases (touching on exactly one side, degenerate zero-width ranges, containment) form a combinatorial space only covered by quantifying over all coordinates.",
 [G+"bounding.cpp",G+"polygon.cpp"],[("range/box overlap predicates",G+"bounding.cpp"),("height overlap and normalisation",G+"polygon.cpp: RangeZ, does_overlap")])
prop("G03","Planes, axes, view axes, normals and projections agree",
 "For every plane, horizontal and vertical view axes map to the two distinct spatial axes of that plane and back, the third axis maps to nothing, a segment lying along one view axis is meshed along the spatial axis perpendicular to it, and picking a coordinate of a 2D point by axis agrees with projecting a 3D point on the plane. Reversing a view axis or a normal is its own inverse and stays on the same spatial axis.",
 ["inputs"],"all planes, axes, orientations, normals and all point coordinates",
 "The tables are cyclic (YZ, ZX, XY) and used in composition by every later stage; tests check single entries in isolation, not the agreement between tables over all combinations.",
 [G+"space.cpp",G+"segment.cpp",G+"point.cpp",G+"normal.cpp",M+"meshline_policy.cpp",I+"parsers/csxcad_layer/point_3d.cpp"],
 [("axis/plane tables",G+"space.cpp"),("segment axis casts",G+"segment.cpp"),("normal reversal",G+"normal.cpp"),("normal to policy side",M+"meshline_policy.cpp: cast"),("projection",I+"parsers/csxcad_layer/point_3d.cpp")])
prop("G04","Coordinate arithmetic and comparison laws",
 "Two coordinates compare equal exactly when they differ by less than the 1e-8 tolerance, unequal otherwise, and the four orderings follow the numeric values. Midpoint lies halfway, distance is the non-negative difference, and 2D and 3D point addition, subtraction, scaling, midpoint and equality act componentwise.",
 ["inputs"],"all finite coordinates",
 "Tests check isolated values; the sign combinations, the tolerance boundary and operand order need all reals.",
 [G+"coord.cpp",G+"coord.hpp",G+"point.cpp",I+"parsers/csxcad_layer/point_3d.cpp"],[("tolerant equality",G+"coord.cpp"),("point arithmetic",G+"point.cpp"),("3D point arithmetic",I+"parsers/csxcad_layer/point_3d.cpp")])
prop("G05","Segments are classified by their actual geometry",
 "A segment is classified as a point, horizontal, vertical or diagonal exactly according to which of its coordinate differences are zero within tolerance; a polygon edge keeps its endpoints, its vector is the difference from first to second endpoint, and a horizontal or vertical edge's direction is the sign of that vector along it while diagonal and point-like edges have no direction. Two spans are equal exactly when they have the same endpoints in either order.",
 ["inputs"],"all endpoint pairs over finite coordinates",
 "Tests use integer endpoints on a small grid; tolerance-sized components and both traversal orders of every orientation are only covered by quantifying over all endpoints.",
 [G+"segment.cpp",G+"edge.cpp",G+"range.cpp"],[("axis classification",G+"segment.cpp: axis"),("edge construction",G+"edge.cpp: Edge::Edge"),("range construction",G+"range.cpp")])
prop("G06","Polygon rotation is the sign of its area and normals point outward",
 "A vertex list is reported counter-clockwise, clockwise or colinear according to the sign of its shoelace area (colinear within tolerance), whatever its length and starting vertex. Every horizontal or vertical edge of a non-degenerate polygon gets the normal on its right-hand side when counter-clockwise and its left-hand side when clockwise, i.e. towards the outside, and other edges get none.",
 ["inputs"],"all vertex lists of any length, all edge directions and both rotations",
 "Tests use a few fixed polygons; the sum and the direction table must hold for every length and orientation.",
 [G+"polygon.cpp",G+"polygon.hpp"],[("shoelace",G+"polygon.cpp: detect_rotation"),("normal table",G+"polygon.cpp: detect_edge_normal")])
prop("G07","Polygon edges form the closed chain of its vertices",
 "A polygon with n vertices has exactly n edges, in vertex order: the first joins the last vertex to the first, and each following one joins a vertex to its successor, all on the polygon's plane. No vertex or edge is dropped, duplicated or reordered.",
 ["inputs"],"all vertex lists of any non-zero length, all planes",
 "Tests check a few fixed lists; the loop invariant ranges over all lengths.",
 [G+"polygon.cpp"],[("edge construction loop",G+"polygon.cpp: detect_edges")])
prop("G08","Segment overlap, merge and intersection are geometrically exact",
 "For two colinear axis-aligned segments that share a part, the reported overlap is exactly the shared part and the merge exactly their union's extent; when the extents do not meet on either axis nothing is reported. A reported intersection of a horizontal and a vertical segment is the point on both their lines, and for other non-parallel crossing segments it lies on both supporting lines and between the first segment's or second segment's ends as computed.",
 ["inputs"],"all pairs of segments over finite coordinates",
 "Tests list a few integer placements; containment, touching and reversed-order cases multiply beyond what examples reach.",
 [G+"segment.cpp"],[("overlap",G+"segment.cpp: overlap"),("merge",G+"segment.cpp: merge"),("intersection",G+"segment.cpp: intersection")])
prop("G09","Segment and point relations are exact and order-independent",
 "A point is reported on a segment exactly when it is colinear with it and within its extent; two segments whose four endpoints are mutually colinear are reported overlapping exactly when their extents meet on both axes and colinear otherwise, and segments are otherwise reported crossing exactly when each one's endpoints lie on different sides of the other. The relation is the same when the two segments are exchanged.",
 ["inputs"],"all pairs of segments and all points over finite coordinates",
 "Tests sample placements; symmetry and the side conditions must hold for all real placements.",
 [G+"segment.cpp",G+"polygon.cpp"],[("segment-segment and segment-point relation",G+"segment.cpp: relation_to"),("orientation test",G+"polygon.cpp: detect_rotation")])
prop("G10","Point-in-polygon answers are right for every point",
 "A point on a vertex or on an edge of a polygon is reported on it; any other point is reported inside exactly when it is enclosed by the polygon's contour, outside otherwise.",
 ["inputs"],"all points against all simple polygons",
 "Tests try some points on a few polygons; degenerate rays through vertices need all placements.",
 [G+"polygon.cpp"],[("ray casting with retry",G+"polygon.cpp: Polygon::relation_to")])
prop("G11","Angles between edges are normalised",
 "The angle between two directions is the unsigned smaller angle between them, in degrees from 0 to 180, and does not depend on their order; a meshed circle has its first vertex at angle zero, four vertices on its axes, counter-clockwise order and every vertex at the radius from the centre.",
 ["inputs"],"all vector pairs, all centres, radii and slice counts",
 "Trigonometric results over all reals are beyond example tests.",
 [G+"edge.cpp",G+"polygon.cpp"],[("angle",G+"edge.cpp: angle"),("circle sampling",G+"polygon.cpp: circle_to_points")])
prop("M01","A mesh policy is admitted exactly when its kind and side agree",
 "Requesting a policy on an axis adds exactly one policy with the requested axis, kind, side, coordinate, origins and enabled flag at the end of that axis' list and leaves every other policy, interval and mesh line untouched, provided the thirds kind has a side and the other kinds have none; otherwise nothing is added and nothing changes. A policy's initial line spacing is half the maximum spacing of the global parameters.",
 ["inputs","histories"],"every axis, kind, side, coordinate, flag and every prior content of the manager",
 "Tests check some of the 9 kind/side pairs on near-empty managers; the frame condition ranges over every prior state.",
 [D+"meshline_policy_manager.cpp",M+"meshline_policy.cpp"],[("admission and append",D+"meshline_policy_manager.cpp: add_meshline_policy"),("policy construction",M+"meshline_policy.cpp")])
prop("M02","Colinear edges resolve to the right policy",
 "Solving a group of colinear edges considers only the edges still to be meshed, with each edge's normal reversed when flagged: if one of them has no normal a single-line policy is made, else edges facing both ways give a halfs policy, edges all facing one way give a thirds policy on that side, and none to mesh gives no policy. The policy lies on the group's axis at the edges' shared coordinate, is enabled, and is recorded as the group's solution.",
 ["inputs"],"every group size and every combination of normals, flags and orientations",
 "Tests cover groups of two or three edges with selected normals; the decision is over arbitrary multisets and orders.",
 [C+"conflict_colinear_edges.cpp"],[("counting loop and decision",C+"conflict_colinear_edges.cpp: auto_solve")])
prop("M03","Too-close policies merge by the documented table",
 "Solving two too-close policies on one axis produces exactly one enabled policy recorded as the solution: a single-line policy wins over other kinds and keeps its own coordinate, two single lines meet halfway, two thirds facing the same way stay thirds on that side halfway, and every other pair becomes halfs halfway. The result is the same whichever of the two comes first, and its coordinate lies between the two original ones.",
 ["inputs"],"all kind/side combinations of both policies and all coordinates",
 "Tests check selected pairs in one order; the table has 25 valid ordered pairs over all coordinates.",
 [C+"conflict_too_close_meshline_policies.cpp"],[("decision table",C+"conflict_too_close_meshline_policies.cpp: auto_solve")])
prop("M04","The closest pair of policies is found",
 "Among the enabled policies given, the pair returned is adjacent in coordinate order, no two enabled policies are closer to each other than it, and it is no further apart than the proximity limit; nothing is returned exactly when every two enabled policies are further apart than the limit or fewer than two are enabled. Disabled policies never matter.",
 ["inputs"],"all policy lists of any length, enablement and coordinates, all limits",
 "Tests use short fixed lists; minimality over all pairs of a list of any length is a universally quantified claim.",
 [D+"meshline_policy_manager.cpp"],[("filter, sort and minimum scan",D+"meshline_policy_manager.cpp: detect_closest_meshline_policies")])
prop("M05","Too-close conflicts retire both policies and never double-register",
 "Registering a too-close conflict between two policies of one axis that are in no such conflict yet disables both, records the conflict on each and in that axis' list only, and keeps everything else about them; if either already takes part in one, or the axes differ, nothing changes. Hence no policy is ever in two too-close conflicts, and at the end of the proximity step every conflict of the axis is solved and no two enabled policies of the axis are within the proximity limit.",
 ["inputs","histories"],"all existing conflict lists, all pairs of policies",
 "Tests build one or two conflicts; the invariant is over every conflict list reachable.",
 [D+"conflict_manager.cpp",D+"meshline_policy_manager.cpp"],[("registration",D+"conflict_manager.cpp: add_too_close_meshline_policies"),("fixpoint loop",D+"meshline_policy_manager.cpp: detect_and_solve_too_close_meshline_policies")])
prop("M06","Intervals tile the span between enabled policies",
 "Interval detection on an axis appends exactly one interval between each two enabled policies that are consecutive in coordinate order, in increasing order, each starting where the previous one ends; n enabled policies give n-1 intervals and disabled policies bound none. Each interval knows its half width and its middle, starts with the global spacing, line count and smoothness parameters, and bounds the spacing of both policies by its half width.",
 ["inputs","histories"],"all policy lists of any length and enablement",
 "Tests use a few policies; adjacency and tiling are claims over all list lengths.",
 [D+"meshline_policy_manager.cpp",M+"interval.cpp"],[("filter, sort, pairwise construction",D+"meshline_policy_manager.cpp: detect_intervals"),("interval geometry",M+"interval.cpp: Interval::Interval, Side::Side")])
prop("M07","Line series respect spacing, growth and coverage limits",
 "For positive spacing, a smoothness of at least 1 and a positive maximum spacing, the lines generated over a half interval start within the smoothed initial spacing, strictly increase, never have a gap above the maximum spacing nor more than the smoothness factor times the previous gap, and stop at the first line reaching the half interval's end. A series is accepted as valid exactly when it is long enough and every gap respects both limits within tolerance.",
 ["inputs"],"all positive spacings, smoothness factors, limits and lengths; all line series",
 "The series is produced by an unbounded loop; tests sample parameter values and cannot cover every length or the boundary of each limit.",
 [M+"interval.cpp"],[("series generation",M+"interval.cpp: find_ls"),("validity test",M+"interval.cpp: is_ls_valid_for_dmax_lmin_smoothness"),("gap limit from neighbour",M+"interval.cpp: find_dmax")])
prop("M08","Interval tuning only tightens, and stops on a valid series",
 "Tuning the initial spacing of a half interval never increases it, and when it stops without hitting its iteration limit the series it stands for is valid; tuning the smoothness never increases it, never brings it below 1, and never needs more lines than before. The interval's maximum spacing after tuning is no larger than before and no larger than the growth each side allows.",
 ["inputs"],"all half intervals and parameters",
 "Iterative numeric loops; tests observe a few end results only.",
 [M+"interval.cpp"],[("spacing loop",M+"interval.cpp: adjust_d_for_dmax_lmin"),("smoothness loop",M+"interval.cpp: adjust_smoothness_for_s"),("dmax choice",M+"interval.cpp: find_dmax, auto_solve_d")])
prop("M09","Interval lines are placed from both ends towards the middle",
 "The lines of an interval are, in order: the line offset from the first policy (none for a single-line policy), the first side's series except its last line, one line exactly at the middle, the second side's series mirrored except its last line, and the line offset from the second policy. Offsets are zero for single-line, half the spacing for halfs, and one or two thirds of the spacing for thirds according to the side facing the interval.",
 ["inputs"],"all policies, spacings and series lengths on both sides",
 "Tests check particular series; order, counts and mirrored offsets hold for all lengths.",
 [M+"interval.cpp"],[("line emission",M+"interval.cpp: Interval::mesh"),("offset functions",M+"interval.cpp: Interval::Interval")])
prop("M10","The final mesh of an axis is complete and sorted",
 "Meshing an axis yields its lines in increasing coordinate order, consisting of exactly the lines of every interval plus one line per enabled single-line policy at exactly its coordinate, on top of lines already there; other axes are untouched. The reported cell count is the product of the three axes' line counts, and the policy-line listing has one line per enabled policy.",
 ["inputs","histories"],"all interval and policy lists of any length",
 "Tests check small boards; completeness and order are claims over all lists.",
 [D+"meshline_policy_manager.cpp",M+"meshline_policy.cpp",M+"meshline.cpp"],[("collect, move, sort",D+"meshline_policy_manager.cpp: mesh"),("policy line",M+"meshline_policy.cpp: mesh"),("count",D+"meshline_policy_manager.cpp: get_mesh_cell_number")])
prop("M11","Colinear edges are grouped without loss or duplication",
 "Registering two colinear edges of the same plane and orientation either joins the edge not yet grouped to the first group holding exactly one of them, does nothing when the first group concerning them already holds both, or opens a new group on the perpendicular axis when none holds either; every edge joined or opened is told about its group. Edges of different planes or orientations, diagonal ones included, change nothing.",
 ["inputs","histories"],"all existing groups and edge pairs",
 "Tests build one or two groups; the case analysis is over all group lists.",
 [D+"conflict_manager.cpp",C+"conflict_colinear_edges.cpp"],[("group search and update",D+"conflict_manager.cpp: add_colinear_edges"),("append",C+"conflict_colinear_edges.cpp: append")])
prop("M12","Edges hidden in polygons are registered once per edge",
 "Registering that an edge lies in a polygon creates at most one conflict per edge and plane, to which further overlaps of that edge are appended once each; the edge is linked to its conflict when it is created and the polygon when it first appears in it. Registering the same overlap again changes nothing (an overlap already registered without a facing edge stands for the same span with any).",
 ["inputs","histories"],"all existing conflict lists, edges, polygons and spans",
 "Tests build a couple of overlaps; uniqueness is over all conflict lists.",
 [D+"conflict_manager.cpp",C+"conflict_edge_in_polygon.cpp"],[("registration",D+"conflict_manager.cpp: add_edge_in_polygon"),("append",C+"conflict_edge_in_polygon.cpp: append")])
prop("M13","Edges yield to stronger surrounding material",
 "An edge is flagged for reversal only when the material just outside it ranks strictly above its own polygon's material (port, conductor, dielectric, air in decreasing rank); other edges' flags are left as they were. The surrounding material is the one of highest priority, then of highest rank, among the other overlapping polygons with a material, and the background when there is none.",
 ["inputs"],"all boards: polygon lists, priorities, materials and placements",
 "Tests use boards of a few polygons; maximality over arbitrary polygon lists and the tie rule need all lists.",
 [D+"board.cpp",D+"material.cpp"],[("ambient search",D+"board.cpp: find_ambient_material"),("flagging loop",D+"board.cpp: adjust_edges_to_materials"),("material ranking",D+"material.cpp: operator<=>")])
prop("M14","Every free orthogonal edge gets its thirds policy",
 "Each horizontal or vertical edge that is to be meshed, has a normal and is in no colinear group yields one enabled thirds policy on the perpendicular axis, at its own coordinate, on the side of its (possibly reversed) normal; edges in a colinear group, edges not to be meshed and diagonal edges yield none. Each free diagonal angle yields a halfs policy on each of its plane's two axes at its own coordinates, enabled exactly where the angle is to be meshed.",
 ["inputs"],"all boards",
 "Tests use a few boards; the claim is per edge over all boards and flag combinations.",
 [D+"board.cpp"],[("edge and angle loops",D+"board.cpp: detect_individual_edges")])
prop("M15","Diagonal zones enable exactly the sharp enough angles",
 "Solving a diagonal zone enables meshing along its axis for its first and last angles and for each inner angle of at least the minimal angle parameter and disables it for the other inner ones, without touching the other axis; its extent runs from its first to its last angle; and solving its intervals sets the maximum spacing of exactly the intervals attached to it to the diagonal spacing.",
 ["inputs"],"all zones with any number of angles and intervals",
 "Tests use one or two angles; the loop claims are over all sizes.",
 [C+"conflict_diagonal_or_circular_zone.cpp"],[("angle loop",C+"conflict_diagonal_or_circular_zone.cpp: solve_angles"),("interval loop",C+"conflict_diagonal_or_circular_zone.cpp: solve_intervals"),("extent",C+"conflict_diagonal_or_circular_zone.cpp: bounding")])
prop("M16","An edge covered by other polygons is not meshed",
 "Solving an edge-in-polygon conflict drops the edge from meshing exactly when the spans covering it, taken in order along the edge up to the first same-facing overlapped edge or gap, join into the edge's whole length; otherwise the edge stays to be meshed. The conflict is then marked solved with the edge as its solution, and the edge refers back to it.",
 ["inputs"],"all edges, spans and span orders",
 "Tests use up to three spans; the chaining claim is over all span lists.",
 [C+"conflict_edge_in_polygon.cpp"],[("span chaining",C+"conflict_edge_in_polygon.cpp: auto_solve")])
prop("M17","Requested fixed lines are created once, enabled, on their axis",
 "Each requested fixed line yields an enabled single-line policy on its axis at its coordinate unless the axis already has a single-line policy at an equal coordinate, and nothing else; each is part of the history: going back before the step removes it and coming back restores it.",
 ["inputs","histories"],"all request lists and prior policies",
 "Tests request one or two lines.",
 [D+"board.cpp"],[("deferred creation",D+"board.cpp: Builder::add_fixed_meshline_policy, add_fixed_meshline_policies")])
prop("M18","Every diagonal corner and crossing becomes one angle",
 "Looking for diagonal angles in a plane adds exactly one angle for each polygon corner at which at least one of the two edges is diagonal, at that corner and between these two edges, and exactly one for each pair of edges of different polygons of the plane, at least one of them diagonal, that properly cross, at their crossing. Corners and pairs without a diagonal edge, and edges that do not meet, get none; other planes are untouched. Going back before the step removes the angles and coming back restores them.",
 ["inputs"],"all polygon lists of a plane",
 "Tests use two or three polygons; the claim is over every corner and every pair of edges of any design.",
 [D+"board.cpp",G+"angle.cpp"],[("angle detection",D+"board.cpp: detect_diagonal_angles"),("angle construction",G+"angle.cpp: Angle::Angle")])
prop("M19","Every part of an edge lying in another polygon is registered",
 "Looking for hidden edges in a plane registers, for each edge of a polygon and each other polygon of that plane of at least its priority and overlapping height, exactly the parts of the edge lying inside that polygon or along its contour, those along the contour together with the edge they lie on. Nothing is registered for parts lying outside, for polygons of lower priority or at another height, or for the edge's own polygon.",
 ["inputs"],"all polygon lists of a plane",
 "Tests use a few hand-placed rectangles; how an edge is cut by another contour has unboundedly many arrangements.",
 [D+"board.cpp",G+"segment.cpp",G+"polygon.cpp"],[("cutting edges by polygons",D+"board.cpp: detect_edges_in_polygons")])
prop("M20","Diagonal zones are the runs of angles crossed by diagonal edges",
 "Along each of a plane's two axes, with the plane's diagonal angles in order of their coordinate, each maximal run of successive angles such that halfway between any two neighbours lies within the extent of some diagonal edge to be meshed becomes one zone on that axis, holding exactly these angles, in order and once each; there are no other zones.",
 ["inputs"],"all sets of angles and edges of a plane",
 "Tests use one or two shapes; the runs depend on every angle and edge of the plane at once.",
 [D+"board.cpp",U+"vector_utils.hpp"],[("zone detection",D+"board.cpp: detect_diagonal_zones"),("runs of matches",U+"vector_utils.hpp: find_consecutive_matches")])
prop("S01","Readers see the latest state on the path to the chosen point in time",
 "After moving through history to any point in time, every object presents the most recently recorded of its states whose time is that point or one of its ancestors, and its initial state when there is none; moving is idempotent and moving there and back restores what was seen. Until moved, an object presents the state it recorded last.",
 ["histories"],"every history tree, every recording order, every destination",
 "Tests walk a few linear or two-branch histories; the claim ranges over every tree and order.",
 [U+"state_management.hpp",U+"tree_node.cpp"],[("lazy go",U+"state_management.hpp: Originator::actually_go, go"),("ancestor search",U+"tree_node.cpp: common_ancestor")],state=[{"name":"lazy_go/current_timepoint/ordered_timepoints/states","meaning":"destination not yet applied; time seen; recording order; recorded states","where":U+"state_management.hpp"}])
prop("S02","Recorded states are immutable and never lost by recording",
 "Recording a state at a new point in time makes it the presented one and leaves every earlier state retrievable unchanged; recording again at a point in time that already has one changes nothing for immutable histories. The list of times and the states always correspond one to one.",
 ["histories"],"every sequence of recordings on an object",
 "Tests record two or three states; the representation invariant must hold after every operation sequence.",
 [U+"state_management.hpp"],[("recording",U+"state_management.hpp: Originator::set_state and callers")])
prop("S03","Garbage collection keeps everything still reachable",
 "Collecting history never removes a point in time that is pinned, remembered, current or an ancestor of one of these, removes every other one from the tree together with its recorded states and annotations, and never removes the initial or the presented state of an object.",
 ["histories"],"every history tree, pin set and remembered list, every object's recorded times",
 "Tests collect one or two small trees.",
 [U+"state_management.hpp",U+"state_management.cpp",U+"tree_node.cpp"],[("mark and sweep",U+"state_management.cpp: garbage_collector"),("state erasure",U+"state_management.hpp: Originator::erase"),("tree erasure",U+"tree_node.cpp: erase_from_descendants")])
prop("S04","Undo and redo are exact inverses along the remembered history",
 "Undoing k remembered steps then redoing k returns to the same point in time; undo and redo are possible exactly for as many steps as were remembered behind or undone ahead, and otherwise change nothing; making a new point in time or remembering another one while browsing forgets exactly the undone ones.",
 ["histories"],"every sequence of remember, undo, redo, go and new-state operations",
 "Tests try short fixed sequences; off-by-one errors at the ends of browsing need all sequences.",
 [U+"state_management.cpp"],[("browsing",U+"state_management.cpp: undo, redo, can_undo, can_redo, stop_browsing_user_history")])
prop("S05","The history tree's family relations are consistent",
 "A node's ancestors are its chain of parents up to the root, nearest first; the root is the last of them; descendant and ancestor tests agree with that chain and are mirror images, never true of a node with itself; and the common ancestor of two nodes is the nearest node on both chains, whichever node is asked first.",
 ["inputs","histories"],"every tree and every pair of nodes",
 "Tests use one small tree.",
 [U+"tree_node.cpp"],[("chain walks",U+"tree_node.cpp: ancestors, root, is_descendant_of"),("nearest common",U+"tree_node.cpp: common_ancestor")])
prop("S06","Going back before a step and running again gives the same result",
 "Going back before any step already run restores every part of the design as it was before that step, and running from it on gives the same result again, whether or not history was collected in between; coming back to either result restores it.",
 ["inputs","histories"],"all designs, all steps and all sequences of going back and running again",
 "Tests never run the pipeline twice through history; an object that is not told about moves in time only shows once steps are run again.",
 ["src/app/openemsh.cpp",D+"board.cpp",D+"conflict_manager.cpp",D+"meshline_policy_manager.cpp",U+"state_management.hpp"],[("step marks and moves","src/app/openemsh.cpp: go_before, run_from_step"),("objects taken care of",D+"board.cpp: Builder::build, detect_diagonal_angles, detect_intervals"),("objects taken care of",D+"conflict_manager.cpp: add_*"),("moves",U+"state_management.cpp: go_without_remembering")])
prop("A01","Processing steps follow one fixed order",
 "Running a set of steps executes exactly those steps, once each, in the pipeline's fixed order, each preceded by a mark of its own in history that going before that step reaches; running the next step repeatedly goes through all of them once, in order; following a step, the steps from a step on, a step's number and the last step all describe that same order.",
 ["inputs","configurations"],"all sets of steps and all steps",
 "Tests run the full sequence or single steps; the claim is over all 2^15 subsets and all pairs of tables.",
 ["src/app/openemsh.cpp","src/app/steps.hpp"],[("pipeline",  "src/app/openemsh.cpp: run, run_all_steps, next, that_and_after"),("numbering","src/app/steps.hpp: index, index_max")])
prop("A02","Existing files and grids are not silently overwritten",
 "Unless forced, writing the CSX format is announced as an overwrite exactly when the output file exists or the output is the input and the loaded design already has a grid; other formats and forced writing never are.",
 ["configurations"],"all parameter combinations and file situations",
 "Tests set some flags; all combinations matter because a missed one destroys a user's file.",
 ["src/app/openemsh.cpp"],[("guard","src/app/openemsh.cpp: is_about_overwriting")])
prop("A03","Primitives are projected on the right planes with the right extents",
 "Each supported box, multi-box, polygon, extruded polygon, sphere, cylinder, curve and point is turned into exactly the 2D shapes of its projections on the planes selected by the user, each with the coordinate pairing of its plane and a height range covering the primitive along the remaining axis, with its own priority (the highest for ports and curves); a point and a flat polygon also ask for fixed lines at their own coordinates; primitives with a transformation or of an unsupported kind yield no shape.",
 ["inputs","configurations"],"all primitive coordinates, normal directions and plane selections",
 "Tests parse a few example files; coordinate pairings per plane and flag combinations multiply.",
 [I+"parsers/parser_from_csx.cpp"],[("primitive projection",I+"parsers/parser_from_csx.cpp: parse_primitive_*"),("priority",I+"parsers/parser_from_csx.cpp: parse_priority"),("normal direction tables",I+"parsers/parser_from_csx.cpp: to_axis, to_plane")])
prop("A04","The written grid is exactly the selected mesh",
 "The written file has, for each selected axis, one line list holding exactly the mesh lines and/or policy lines selected, in order and comma-separated, none for the others, and replaces any previous grid; everything else of the input structure is kept, and the mesher parameters appear exactly when requested. Every line is written with its full precision, and a failure to write is reported.",
 ["inputs","configurations"],"all boards and option combinations",
 "Tests compare some option combinations on small boards.",
 [I+"serializers/serializer_to_csx.cpp"],[("serialisation",I+"serializers/serializer_to_csx.cpp: visit")])
prop("A05","Materials are ranked and deduced consistently",
 "Materials are totally ranked port over conductor over dielectric over air, equal kinds being equivalent, whichever operand comes first; a material of default parameters is air, one with only conductivity above default is a conductor and any other is a dielectric.",
 ["inputs"],"all pairs of kinds, all parameter values",
 "Tests cover some pairs; totality and antisymmetry are over all pairs, deduction over all reals.",
 [D+"material.cpp"],[("ranking",D+"material.cpp: operator<=>"),("deduction",D+"material.cpp: deduce_type")])
prop("A06","Names shown for every kind of value are distinct and stable",
 "Every value of each enumerated notion shown to the user (axes, planes, normals, directions, policies, rotations, material kinds) has its own name, equal to the notion's documented one, and different values of one notion never share a name.",
 ["inputs"],"all enumerators",
 "Tests check some names.",
 [I+"utils/to_string.cpp"],[("name tables",I+"utils/to_string.cpp")])
prop("A07","Generic list helpers keep order and content",
 "A view of a list of owners lists exactly the owned objects in order; a list copied from a literal holds equal elements in order; membership tests are exact; runs of consecutive matching elements are returned whole, in order, maximal and separated by at least one non-matching element; the sign of a number is -1, 0 or 1 accordingly.",
 ["inputs"],"all lists of any length and all predicates",
 "Tests use short lists; the claims are over all lengths.",
 [U+"vector_utils.hpp",U+"signum.hpp"],[("helpers",U+"vector_utils.hpp"),("sign",U+"signum.hpp")])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
ids=[p["id"] for p in P]; assert len(ids)==len(set(ids)); print(len(P))
