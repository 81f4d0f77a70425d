#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

T = "toolbox/src/"
p("C01", "Mesh box query returns exactly the overlapping triangles",
  "For every ground mesh and every axis-aligned query box, the query yields each triangle whose bounding box touches or overlaps the query box exactly once, yields no other triangle, replaces whatever the output list held before, and returns true exactly when the list is non-empty. This holds for any number of triangles, any placement (including coincident, flat or far-apart triangles), and for any ids the triangles carry.",
  ["inputs"], "all meshes of up to N triangles over a box lattice and all query boxes over the refined lattice",
  "the tests load one fixed mesh and run one pose; they never compare the query with a scan of the whole mesh",
  ["src/mesh.cc", T+"AABBtree.cc", T+"aabb.cc"],
  [("ground::mesh::intersection/buildAABBtree", "src/mesh.cc"), ("AABBtree::build/intersection", T+"AABBtree.cc"), ("aabb::intersects/merged", T+"aabb.cc")],
  [("m_AABBtree, m_bboxes, m_triangles", "index, boxes and triangles that must describe the same set", "src/enve/mesh.hxx")],
  ["ground::mesh::intersection"])
p("C02", "A mesh behaves as its current triangles after any history",
  "After any sequence of constructing, loading, reloading, copying, clearing and failed loading, a mesh behaves exactly like a mesh freshly built from the triangles it should currently hold: size, element access and box queries agree, a cleared mesh is empty for every query, and a copy does not follow later changes of its source. A load that is rejected raises an error and leaves the mesh as it was.",
  ["histories"], "all operation sequences up to the depth bound over two meshes and a menu of good and bad files",
  "each test loads exactly one file into one fresh mesh; copy, clear, reload and failing loads are never executed",
  ["src/mesh.cc", "src/enve/mesh.hxx", T+"AABBtree.cc"],
  [("mesh::load, copy, clear", "src/mesh.cc"), ("mesh::buildAABBtree", "src/mesh.cc")],
  [("m_triangles vs m_AABBtree", "must be replaced together", "src/enve/mesh.hxx")])
p("C03", "RDF files load exactly what they say or are rejected",
  "For every RDF text, loading either produces one triangle per element line, in file order, with the listed nodes moved by the given pose as vertices and the listed friction, or raises an error. Comment lines, blank lines, extra spaces, tabs and CR-LF line ends never change the result, and a line with a missing or extra field, a node index outside the node list, or a negative or undefined friction is rejected and never read out of range.",
  ["inputs"], "all RDF texts composed of up to N lines from the line alphabet, in LF and CR-LF form, under several poses",
  "the tests read one well-formed file; malformed, reordered, blank-line or CR-LF files are never tried",
  ["src/mesh.cc"], [("mesh::load(path, pose)", "src/mesh.cc"), ("split/tail/firstToken", "src/mesh.cc")],
  observe=["ground::mesh(path, pose)"])
p("C04", "OBJ files load exactly what they say or are rejected",
  "For every OBJ text, loading either produces one triangle per face line, in file order, with the 1-based listed vertices moved by the given pose and the friction given by the caller, or raises an error. Comment lines, blank lines, other records, extra spaces, tabs and CR-LF line ends never change the result, and a face or vertex line with a missing or extra field or an index outside the vertices read so far is rejected and never read out of range.",
  ["inputs"], "all OBJ texts composed of up to N lines from the line alphabet, in LF and CR-LF form, under several poses",
  "the tests read well-formed generated files only and check nothing about the triangles obtained",
  ["src/mesh.cc"], [("mesh::load(path, friction, pose)", "src/mesh.cc"), ("split/tail/firstToken", "src/mesh.cc")],
  observe=["ground::mesh(path, friction, pose)"])
p("C05", "Ground elements are well formed or refused",
  "Every ground triangle has a unit normal perpendicular to its sides with non-negative z component whatever its vertex order, a bounding box that is the exact hull of its vertices and carries its id, and unchanged vertices, id and friction; every flat ground has a unit upward normal parallel to the given one and the given origin and friction. A negative friction, or a flat ground whose normal does not point upwards, is refused with an error by every constructor, and copies equal their source in all attributes.",
  ["inputs"], "all vertex triples / origins and normals over an integer lattice, all frictions of the alphabet, all constructors",
  "tests construct a few elements with one vertex order and never examine normal, box or id",
  ["src/triangleground.cc", "src/flat.cc", T+"triangle.cc", T+"plane.cc", T+"aabb.cc"],
  [("triangleground constructors, updateNormal, updateBBox", "src/triangleground.cc"), ("flat constructors", "src/flat.cc")])
p("C06", "Rib on flat ground gives the exact circle-chord contact",
  "For every rib, pose and flat ground, geometric enveloping reports contact exactly when the rib circle crosses the ground plane; then the contact point is the midpoint of the chord the plane cuts from the rib disk, the normal is the unit ground normal, the depth is the radius minus the distance of the contact point from the rib centre, the area is chord length times rib width, the volume is circular-segment area times rib width, and the friction is that of the ground. A wheel set on flat ground gives exactly this for each of its ribs, and contact when any rib has it.",
  ["inputs"], "all ribs, ground planes and poses (height, yaw, camber, spin) of the lattice",
  "tests print these values for a single pose and compare them with nothing",
  ["src/rib.cc", "src/shell.cc", T+"intersection.cc", T+"disk.cc", T+"plane.cc"],
  [("rib::envelopGeometric(flat)", "src/rib.cc"), ("Intersection(plane, disk, segment)", T+"intersection.cc")],
  observe=["rib::envelop", "shell::setup(flat)"])
p("C07", "Geometric mesh contact aggregates the chords cut from the rib disk",
  "With geometric enveloping, a rib's contact on any mesh is the aggregate of the chords its triangles cut from the rib disk: area is the sum of chord length times width, volume the sum of the disk slices between chords and rim times width, friction and contact point are volume-weighted means over the chords, and the normal is the unit volume-weighted mean of the chords' inward directions corrected along the axle by the triangle normals. Reordering, renumbering or flipping triangles changes nothing. When the mesh covers a plane around the wheel, however it is tessellated, contact status, area and volume equal those of the matching flat ground and the contact point lies in the ground plane and in the rib plane.",
  ["inputs"], "all tessellations and permutations of the menu, over all poses of the lattice",
  "tests use one mesh in one order and never compare mesh with flat results",
  ["src/rib.cc", "src/shell.cc", T+"intersection.cc"],
  [("rib::envelopGeometric(mesh)", "src/rib.cc"), ("Intersection(triangle, disk, segment)", T+"intersection.cc")],
  observe=["rib::envelop", "shell::setup(mesh)"])
p("C08", "Contact is spin invariant and follows rigid motions of the scene",
  "With geometric enveloping, turning a wheel about its own axle changes no contact quantity on any ground. With both methods, moving wheel and ground together by a translation or by a rotation about the vertical axis moves the contact points and normals by the same motion and leaves contact status, depth, area, volume and friction unchanged, up to rounding, also when the motion leads to map coordinates (hundreds of kilometres from the world origin, on flat ground thousands).",
  ["inputs"], "all spin angles, motions, grounds (flat, planar and bumpy meshes) and poses of the lattice",
  "tests evaluate one orientation at one location; invariance relates pairs of executions",
  ["src/rib.cc", "src/shell.cc", T+"intersection.cc"],
  [("rib::envelopGeometric", "src/rib.cc"), ("rib::envelopSampling", "src/rib.cc"), ("shell::setup", "src/shell.cc")])
p("C09", "Sampling contact follows the four vertical probes",
  "With sampling enveloping, each rib probes the ground with four vertical lines placed at plus/minus 0.1 radius along its x axis and plus/minus 0.3 width along its y axis, each taking the highest ground point on it; the contact point is their mean, the normal the unit upward normal of the two probe diagonals, the friction their mean friction, and the depth the radius foreshortened by the inclination of the normal out of the rib plane, less the distance of the point from the rib centre. Contact is reported exactly when all four find ground and that depth is positive, area and volume being those of the circular segment of that depth. A planar mesh covering the probes gives the same result as the equal flat ground.",
  ["inputs"], "all ribs, poses and grounds (flat, tessellated planes, stacked layers, partial covers) of the lattice",
  "tests print sampling output for single poses; layered and partial grounds are never used",
  ["src/rib.cc", T+"intersection.cc", T+"line.cc"],
  [("rib::envelopSampling, samplingLine", "src/rib.cc"), ("Intersection(line, triangle/plane, point)", T+"intersection.cc")])
p("C10", "Wheel contact on a mesh equals every rib against the whole mesh",
  "Setting a shell on a mesh gives, for every rib and with geometric enveloping, exactly the result of evaluating that rib against all triangles of the mesh; with sampling enveloping, that of evaluating it against all triangles whose boxes touch the wheel's bounding box. Preselecting triangles by bounding box or by rib never loses or duplicates a contributing triangle, in any pose. The shell's bounding box, once set up, contains every rib disk.",
  ["inputs", "configurations"], "all shells, poses (any yaw, camber, spin, offset) and meshes of the lattice",
  "tests have no brute-force comparison and use one upright wheel",
  ["src/shell.cc", "src/mesh.cc", "src/rib.cc", T+"AABBtree.cc", T+"plane.cc"],
  [("shell::updateBBox, setup, refineIntersection", "src/shell.cc"), ("mesh::intersection", "src/mesh.cc")])
p("C11", "Wheel totals are the stated aggregates of its ribs",
  "After any setup, the return flag is true exactly when at least one rib is in contact; total volume and total area are the sums over ribs; total point, friction and depth are the volume-weighted means and the total normal is the normalized volume-weighted mean, falling back to plain means (zero depth) when there is no contact volume. The per-rib, per-index and vector forms of every getter agree, and vector getters size their output to the number of ribs.",
  ["inputs", "configurations"], "all ground/pose/method/rib-count combinations of the lattice, every getter in all its forms",
  "tests only print getters; partial contact where ribs differ is not checked",
  ["src/shell.cc"], [("shell::contact* getters, setup", "src/shell.cc")],
  [("m_out", "per-rib results that totals aggregate", "src/enve/shell.hxx")])
p("C12", "Contact results depend only on the current setup, not on history",
  "After any sequence of setups on any grounds with any methods and poses, resizes, moves and queries, a setup gives bit-for-bit the results a brand-new shell of the same shape gives for that setup; queries never change results, and per-rib outputs are always those of the latest setup. A setup refused for an unknown method leaves the shell usable, and rib access is valid for any number of ribs.",
  ["histories"], "all operation sequences up to the depth bound over the operation alphabet",
  "tests perform one or two setups on a fresh shell; stale candidates or outputs from earlier steps cannot show",
  ["src/shell.cc", "src/rib.cc"],
  [("shell::resize, setup, refineIntersection", "src/shell.cc")],
  [("m_out, m_candidates, m_affine, m_bbox", "per-step state that must be fully refreshed", "src/enve/shell.hxx")])
p("C13", "Ribs tile the wheel width and follow its profile",
  "For every rib count and shape, a shell has exactly that many ribs, all of equal width, contiguous and symmetric over the full wheel width, each centred in its slot on the axle, with the profile's radius and inclination at its centre. Zero ribs or a shape without positive radius at a rib is refused with an error, resizing at any time gives the ribs of a new shell of that size, and a refused resize leaves ribs and contact results as they were.",
  ["inputs", "histories"], "all rib counts up to the bound and all shapes of the parameter lattice; all resize sequences up to the depth bound",
  "tests use 10 ribs (or one) of one shape and never look at the ribs",
  ["src/shell.cc", "src/shape.cc", "src/rib.cc"],
  [("shell::resize", "src/shell.cc"), ("shape::surfaceRadius/surfaceAngle", "src/shape.cc")])
p("C14", "The wheel profile is the stated hyperellipse",
  "For every valid shape the radius at lateral position y is Rx*(1-(|y|/Ry)^My)^(1/Mx): even in y, equal to Rx at the middle, non-increasing outwards; the profile slope is its exact derivative (odd, zero at the middle) and the profile angle is its arctangent. Positions beyond the half width are refused, those within (ends included) accepted, and copies equal their source.",
  ["inputs"], "all shapes of the parameter lattice and all y of the fine lattice including both ends",
  "tests never evaluate the profile at chosen points",
  ["src/shape.cc", "src/shell.cc"], [("shape::surfaceRadius, surfaceDerivative, surfaceAngle, checkWidthBound", "src/shape.cc")])
p("C15", "Shell pose bookkeeping composes and checks rigid motions",
  "Translations and rotations applied to a shell compose in the order issued in the shell's own frame, a given pose is stored exactly, and the translation, rotation, axes, matrix and Euler-angle queries (ZXY order) all describe that same pose; a setup makes its pose the current one. The pose check accepts exactly the right-handed orthonormal transformations and rejects scaled, sheared, reflected or otherwise non-rigid ones.",
  ["histories", "inputs"], "all sequences of pose operations up to the depth bound; all matrices of the rigid and non-rigid menus",
  "tests set one pose through setup and never read it back",
  ["src/shell.cc"], [("shell::translate/rotate/transform/checkTransformation/eulerAngles", "src/shell.cc")])
p("C16", "Contact frames are right-handed and consistent with the wheel",
  "After every setup, in contact or not, each contact frame (whole wheel and per rib) is a right-handed orthonormal frame whose z axis is the contact normal, whose origin is the contact point and whose x axis is perpendicular to the axle; contact normals are unit vectors. The relative angles are the ZXY Euler angles of the wheel orientation seen from that frame, with the rib's own inclination removed for ribs.",
  ["inputs"], "all grounds, poses, methods and shells of the lattice with the axle not parallel to the contact normal",
  "tests print one frame; orthonormality and angle reconstruction are never checked",
  ["src/shell.cc", "src/rib.cc"], [("shell::contactPointAffine, relativeAngles", "src/shell.cc")])
p("C17", "Without contact every output has its defined idle value",
  "Whenever a rib is not in contact, for either ground type and method, its outputs are: point at the rib's bottom (centre minus radius along the wheel z axis), normal equal to the wheel z axis, and friction, depth, area and volume all zero; contact outputs are otherwise finite, with depth between zero and twice the radius, positive area or volume and friction within the range of the ground's frictions. A wheel off the mesh, above it, over an empty mesh or over holes is such a case and never an error.",
  ["inputs", "configurations"], "all poses around, above, below and off the ground for all grounds and methods of the lattice",
  "the tests keep the wheel on the mesh; misses, edges and holes are not exercised",
  ["src/rib.cc", "src/shell.cc", "src/mesh.cc"], [("rib::envelop(pose, out)", "src/rib.cc"), ("shell::setup", "src/shell.cc")])
p("C18", "The S-function protocol mirrors the library step by step",
  "For every sequence of init, step and end calls with any hub poses, method and ground selectors, each step's output bus holds exactly what a shell of the init parameters gives for that pose: the mesh result with the in-mesh flag set when the mesh is touched, otherwise the flat fallback with the flag cleared, or the flat result when flat is selected; bus slots beyond the rib count are NaN and nothing outside the bus is written. Wrong selectors, a missing environment variable or a wrong file type raise an error and leave the previous setting usable, a step without an init is an error, end releases what init built, and initialising again starts afresh.",
  ["histories", "configurations"], "all call sequences up to the depth bound over the operation and pose alphabet, for rib counts up to and beyond the bus size",
  "the single test makes two steps and looks at no output value",
  ["sfun/src_sfun/enve_sfun_interface.cc", "src/shell.cc"],
  [("enve_sfun_init/out/end", "sfun/src_sfun/enve_sfun_interface.cc")],
  [("MeshPtr, FlatPtr, ShellPtr", "global instances used by every step", "sfun/src_sfun/enve_sfun_interface.cc")])
p("C19", "Wheels sharing one ground never affect each other",
  "Several shells using the same mesh or flat ground, from one thread or from several threads at once, each obtain exactly the results they would obtain alone, under every interleaving of their operations; evaluating contact never modifies the ground or any state shared between shells.",
  ["schedules"], "all interleavings of the memory accesses of two (three) concurrent setup/query sequences, reduced by independence",
  "tests run one or a few shells strictly one after another in one thread and compare nothing",
  ["src/shell.cc", "src/mesh.cc", "src/rib.cc", T+"AABBtree.cc", T+"intersection.cc"],
  [("shell::setup with a const ground", "src/shell.cc"), ("mesh::intersection const", "src/mesh.cc")])
p("C20", "Box trees find every overlapping pair",
  "For any two sets of boxes, intersecting their trees lists every pair of overlapping boxes exactly once, first element from the first set (reversed when asked to swap), and no other pair, also when a set is empty, has duplicate, flat or identical boxes, or when a tree is intersected with itself, cleared or rebuilt. The collision query hands its callback only overlapping pairs, all of them while the callback refuses, and answers whether one was accepted.",
  ["inputs", "histories"], "all pairs of box sets up to the size bound over the menu, structured large sets, all rebuild sequences up to the depth bound",
  "no test exercises the tree other than through one mesh query",
  [T+"AABBtree.cc", T+"acme/AABBtree.hxx", T+"aabb.cc"], [("AABBtree::build, intersection, collision", T+"AABBtree.cc")])
p("C21", "Axis-aligned box operations are exact",
  "For all boxes and points: overlap and containment tests decide exactly the closed-box relation and overlap is symmetric, the intersection box and merged box are the exact intersection and hull, clamping points or vectors of boxes gives their exact hull, nearest and farthest distances to a point are the true ones also for flat boxes, translation moves both corners, and swapped corners are reordered.",
  ["inputs"], "all boxes and points over the integer lattice",
  "no test calls these operations", [T+"aabb.cc", T+"intersection.cc"], [("aabb", T+"aabb.cc"), ("Intersection(aabb, aabb)", T+"intersection.cc")])
p("C22", "Line-like against surface intersections are sound and complete",
  "For every line, ray or segment and every plane, triangle or disk in general position, the intersection function reports a point exactly when the two closed sets meet, and that point lies on both; when the line-like entity lies in the surface's plane, it reports a segment exactly when they share more than one point, equal to the shared part. Clear misses, hits well inside and hits through edges or vertices are all decided correctly, whatever the length of direction vectors or size of the entities.",
  ["inputs"], "all entity pairs with coordinates on the integer lattice, judged by an exact rational oracle",
  "enve's tests hit few of these routines with random-looking data and no oracle",
  [T+"intersection.cc", T+"triangle.cc", T+"disk.cc", T+"plane.cc"], [("Intersection(line|ray|segment, plane|triangle|disk)", T+"intersection.cc")])
p("C23", "Surface against surface intersections are sound and complete",
  "For every pair out of plane, triangle and disk in non-parallel position, the intersection function reports a line or segment exactly when the two closed sets share more than one point, and the reported line or segment is exactly the shared set; when they share nothing it reports nothing. Two coplanar triangles are reported as meeting exactly when they overlap. Three planes in general position meet in the reported point.",
  ["inputs"], "all entity pairs over the integer lattice, judged by an exact oracle",
  "the mesh tests exercise triangle/disk only and compare nothing",
  [T+"intersection.cc"], [("Intersection(plane|triangle|disk, plane|triangle|disk)", T+"intersection.cc")])
p("C24", "Line-like, ball and point intersections are sound and complete",
  "For every pair of lines, rays and segments that are not collinear, a point is reported exactly when the two share one, and it is that point: parallel and skew pairs report none. Collinear pairs yield exactly the shared part. A line, ray or segment meets a ball in exactly the reported chord, a plane meets a ball in exactly the reported disk, and a point meets a line, ray, segment, plane, triangle, disk or point exactly when it lies in it.",
  ["inputs"], "all entity pairs over the integer lattice, judged by an exact oracle",
  "no test calls these", [T+"intersection.cc"], [("Intersection(line|ray|segment|ball|point, ...)", T+"intersection.cc")])
p("C25", "Generic intersection agrees with the typed ones and is symmetric",
  "For every ordered pair of entities whose kinds have a common set the library can express, the generic intersection never crashes or raises an error, returns exactly the common set as an entity of the right kind (none when they do not meet), as the typed functions do, and is independent of the order of the two arguments. Kinds the library declares unsupported (coplanar disks, a ball with a point, triangle, disk or ball) are excepted.",
  ["inputs", "configurations"], "all ordered pairs of entities from the menu covering every kind and relative position",
  "no test calls the generic intersection", [T+"intersection.cc", T+"collection.cc"], [("Intersection(entity, entity)", T+"intersection.cc")])
p("C26", "Parallel, orthogonal, collinear and coplanar tests are exact relations",
  "For every pair of entities with a direction or normal, the parallelism and orthogonality tests decide the true geometric relation whatever the sign or length of the direction vectors, parallelism and orthogonality exclude each other, collinearity and coplanarity decide whether the entities share a supporting line or plane, and all of these tests are symmetric in their arguments and agree with their generic-entity forms.",
  ["inputs"], "all entity pairs over the integer lattice of directions and offsets, judged exactly",
  "no test calls these", [T+"parallel.cc", T+"orthogonal.cc", T+"collinear.cc", T+"coplanar.cc"],
  [("IsParallel/IsOrthogonal/IsCollinear/IsCoplanar", T+"parallel.cc")])
p("C27", "Containment, measures and bounding boxes of entities are exact",
  "For every entity and point, the containment test decides whether the point belongs to the closed set; lengths, perimeters, areas, volumes, centroids, normals, barycentric coordinates, point distances from planes (whatever the length of the normal) and angles between vectors are the true geometric values; an entity constructed without data is undefined (not a number), never arbitrary; and the bounding box of a bounded entity is the exact hull (or, for disks, a box containing it), unbounded entities being refused.",
  ["inputs"], "all entities and points over the integer lattice, judged exactly",
  "no test calls these", [T+"triangle.cc", T+"disk.cc", T+"segment.cc", T+"ray.cc", T+"line.cc", T+"plane.cc", T+"ball.cc", T+"point.cc"],
  [("isInside, area, perimeter, barycentric, clamp, centroid", T+"triangle.cc")])
p("C28", "Transforming entities moves exactly their point sets",
  "Translating, rotating or rigidly transforming any entity moves its point set by exactly that motion: containment of moved points is unchanged, lengths, areas, radii and degeneracy are preserved, unit vectors stay unit, a motion followed by its inverse restores the entity, and rotation axes may have any length. Reversing a line, plane or disk and swapping the vertices of a segment or triangle keep the set, reversing a ray gives the opposite ray. The intersection of moved entities is the moved intersection.",
  ["histories", "inputs"], "all operation sequences up to the depth bound over every entity kind and the motion menu",
  "no test transforms entities", [T+"point.cc", T+"line.cc", T+"ray.cc", T+"segment.cc", T+"plane.cc", T+"triangle.cc", T+"disk.cc", T+"ball.cc", T+"entity.cc"],
  [("entity::translate/rotate/transform", T+"entity.cc")])
p("C29", "Entity collections stay consistent under any operation history",
  "For every sequence of insertions, removals by kind, resizes, clears, motions and queries, a collection holds exactly the expected entities in insertion order: counts, 'contains' and 'all are' queries agree with its content for every kind, removals remove all and only the entities of that kind, moving moves each entity once, and, with the index built after the last change of the content, collection intersection lists exactly the entities or pairs whose boxes overlap. A cleared collection has no candidates, changing a copy leaves the original and its index as they were, and indexing a collection with an unbounded entity is refused.",
  ["histories"], "all operation sequences up to the depth bound over entities of every kind",
  "no test uses collections", [T+"collection.cc", T+"AABBtree.cc"], [("collection", T+"collection.cc")],
  [("m_entities, m_AABBtree", "content and its index", T+"acme/collection.hxx")])
p("C30", "The MATLAB functions mirror the library and refuse every unfit call",
  "For every sequence of calls of mex_flat, mex_mesh, mex_shell and mex_triangleground on several objects, every accepted call does to its object what the library call of the same name does, touches no other object, and every output equals the library's value (matrices column by column, rib and triangle indices counted from one, points and planes as handles). A call with an unknown command, a wrong number of arguments or outputs, a handle of another class, an argument of the wrong size or class, or an index out of range raises an error and leaves every object, the lock count and the memory as they were. Deleting every object returns all memory and locks.",
  ["histories", "inputs"], "all call histories up to the depth bound over every command, and every command with every wrong count, class, size and index",
  "no test calls the MATLAB interface", ["toolbox/src_mex/mex_flat.cc", "toolbox/src_mex/mex_mesh.cc", "toolbox/src_mex/mex_shell.cc", "toolbox/src_mex/mex_triangleground.cc", "toolbox/src_mex/mex_utils.hh"],
  [("mexFunction command dispatch", "toolbox/src_mex/mex_shell.cc"), ("handle and argument checks", "toolbox/src_mex/mex_utils.hh")])
p("C31", "The MATLAB classes mirror the library objects",
  "For every sequence of method calls on enve_flat, enve_mesh, enve_shell and enve_triangleground objects, each accepted call does to its object what the library operation of that name does and leaves the other objects as they were, and every query (numbers, vectors, matrices, points, planes, triangles, per-rib lists, equality, type) gives the library's values, rib and triangle indices counted from one. Calls that do not fit (missing or wrong arguments, an object of another class, an index out of range, a file that cannot be loaded) raise an error. Each object frees its library object exactly once, when it is deleted or no longer referenced, and no method uses a freed one. Pictures show the geometry the queries report: triangles, planes, rib disks, frames, and surfaces on the wheel's profile in its pose.",
  ["histories", "inputs"], "all method histories up to the depth bound over several objects of every class, every query after each",
  "no test runs the classes", ["toolbox/lib/enve_flat.m", "toolbox/lib/enve_mesh.m", "toolbox/lib/enve_shell.m", "toolbox/lib/enve_triangleground.m"],
  [("class methods", "toolbox/lib/enve_shell.m"), ("class methods", "toolbox/lib/enve_flat.m"), ("commands behind the methods", "toolbox/src_mex/mex_shell.cc")])
p("C32", "Copies equal their source and equality looks at every value",
  "For every history of copying, assigning, changing and rebuilding objects of any kind (points, lines, rays, planes, segments, triangles, disks, balls, boxes, wheel shapes, ribs, flat grounds, ground triangles, meshes), an object behaves in every query exactly like one freshly built from the values it was last given: a copy equals its source, neither follows later changes of the other, and copying an object onto itself changes nothing. Approximate equality is reflexive and symmetric, holds for differences well below the given tolerance and fails as soon as any single defining value differs by well more than it, whichever value that is.",
  ["histories", "inputs"], "all operation sequences up to the depth bound over three objects of each kind, and every single-value difference at every tolerance of the menu",
  "no test compares or copies objects", ["src/rib.cc", "src/shape.cc", "src/flat.cc", "src/triangleground.cc", "src/mesh.cc", T+"plane.cc", T+"disk.cc", T+"triangle.cc", T+"segment.cc", T+"aabb.cc"],
  [("copy and isApprox", "src/triangleground.cc"), ("copy and isApprox", "src/rib.cc"), ("isApprox", T+"disk.cc")])
p("C33", "Printed reports give the object's current values",
  "For every object (vector, point, line, ray, plane, segment, triangle, disk, ball, box, affine transformation, box tree, wheel shape, flat ground, ground triangle, mesh, shell) and every history that led to it, its printed report gives under each label the value the corresponding query returns at that moment, to the printed precision: a box tree lists boxes that each enclose exactly the given boxes inside them, hull first; a mesh file lists every triangle once, in order, and replaces any previous content; a shell report lists every rib's and the wheel's current contact values, frames and angles. Printing changes nothing: all queries and a second report are the same.",
  ["histories", "inputs"], "all value combinations, box sequences, mesh contents and shell histories up to the bounds",
  "no test reads a report", ["src/shell.cc", "src/mesh.cc", "src/shape.cc", "src/flat.cc", "src/triangleground.cc", T+"utilities.cc", T+"AABBtree.cc"],
  [("shell::print", "src/shell.cc"), ("mesh::print", "src/mesh.cc"), ("operator<<", T+"utilities.cc"), ("AABBtree::print", T+"AABBtree.cc")])
p("C34", "Geometric tests honour the tolerance they are given",
  "Every geometric test that takes a tolerance (parallel, orthogonal, coplanar, collinear, point inside, intersection, degenerate, equal numbers; for the typed and the generic forms, in both argument orders) decides by that tolerance, and by the default one when none is given: entities of unit size that miss a relation by a small distance or angle are accepted when the tolerance is clearly larger than every miss and refused when it is clearly smaller than one, whatever the pose; for points in segments and planes the tolerance is a length, however long the segment or far the point. Whenever collinear, coplanar or crossing entities meet within the tolerance their common part is reported, by the generic intersection as by the typed one, and touching segments never raise an exception.",
  ["inputs"], "all ordered pairs of kinds x arrangements x deviations x shifts x tolerances from 1e-10 to 0.05",
  "the tests use exact inputs and the default tolerance", [T+"parallel.cc", T+"orthogonal.cc", T+"coplanar.cc", T+"collinear.cc", T+"intersection.cc", T+"line.cc", T+"ray.cc", T+"segment.cc", T+"plane.cc", T+"triangle.cc", T+"disk.cc", T+"math.cc"],
  [("Intersection(entity, entity, tolerance)", T+"intersection.cc"), ("IsParallel", T+"parallel.cc"), ("IsOrthogonal", T+"orthogonal.cc"), ("IsCoplanar", T+"coplanar.cc"), ("IsCollinear", T+"collinear.cc"), ("segment::isInside", T+"segment.cc"), ("ray::isInside", T+"ray.cc")])
p("C35", "Objects release everything they take",
  "Whatever is done with meshes, wheels, box trees, collections, entities and the S-function interface, in any order and including refused operations (unreadable files, unfit poses, unknown methods, unsupported pairs of kinds), once the objects are gone (the S-function ended) no memory and no open file is left, and repeating an operation in the same state (loading, querying, setting a wheel, reading results, printing, intersecting) never holds more memory or files than after its first repetitions, so simulations of any length run in bounded memory. Triangles, boxes and entities handed out live as long as somebody holds them, unchanged, and not longer.",
  ["histories"], "all operation sequences up to the bounds, every operation repeated ten times in every state reached",
  "tests run each operation once and end the process", [T+"intersection.cc", T+"AABBtree.cc", T+"collection.cc", "src/mesh.cc", "src/shell.cc", "src/rib.cc", "sfun/src_sfun/enve_sfun_interface.cc"],
  [("Intersection(entity, entity)", T+"intersection.cc"), ("AABBtree::build", T+"AABBtree.cc"), ("mesh::load", "src/mesh.cc"), ("shell::setup", "src/shell.cc"), ("collection::intersection", T+"collection.cc"), ("enve_sfun_init", "sfun/src_sfun/enve_sfun_interface.cc")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
