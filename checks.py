"""Registry of the checks: harness, exploration level, bounds and rules."""
CHECKS = {}
NOT_APPLICABLE = {}


def add(pid, level, technique, rule, quick, thorough, note, **kw):
    CHECKS[pid] = dict(harness=["harness/%s.cc" % pid.lower()], level=level, technique=technique, rule=rule,
                       bound={"quick": quick, "thorough": thorough}, note=note, **kw)


add("C01", "exploration",
    "exhaustive bounded enumeration of meshes x query boxes on the real code against a scan oracle",
    "a case is one mesh (menu sequence, lattice box or structured mesh) queried with every box of the lattice; non-trivial when at least one query overlaps a triangle",
    "all sequences of <=4 of 9 menu triangles (4 id schemes), all 216 lattice boxes, 7 structured families up to 20 elements, 5 large ones up to 1500",
    "all sequences of <=5 menu triangles, all 216 lattice boxes x all half-lattice queries, structured families up to 40 elements, large ones up to 70000 (nested: 600)",
    "Every mesh of the bounded alphabet is queried with every lattice box and compared with a full scan by closed-interval overlap.")
add("C02", "model_checking",
    "exhaustive operation-sequence exploration of the real mesh class against a list model",
    "a case is one operation sequence over two meshes (17 operations each); non-trivial when some mesh held triangles; every prefix is itself a case, so the state is compared after each operation",
    "all sequences of length <=3 over 34 operations", "all sequences of length <=4 over 34 operations",
    "Every history up to the bound is executed on the real class and its size, elements and queries are compared with the reference model.")
add("C03", "exploration",
    "exhaustive deviation-bounded enumeration of RDF texts against a reference parser",
    "a case is one RDF text (LF or CR-LF, final newline or not, pose) loaded for real; non-trivial when the reference parser accepts it with at least one triangle",
    "all texts within 2 line deviations of a 6-line base and 1 of a 16-line base over a 32-line alphabet, all sequences of <=4 of 12 lines, all whitespace masks, 8 poses (rigid, stretched, sheared, mirrored, far), files of up to 27000 elements",
    "3 and 2 deviations, sequences of <=5 lines, files of up to 120000 elements",
    "Numbers with trailing garbage (accepted by the C library conversions) are outside the alphabet; nodes are referenced by position.")
add("C04", "exploration",
    "exhaustive deviation-bounded enumeration of OBJ texts against a reference parser",
    "a case is one OBJ text (LF or CR-LF, final newline or not, pose, friction) loaded for real; non-trivial when the reference parser accepts it with at least one triangle",
    "all texts within 2 line deviations of a 4-line base and 1 of a 12-line base over a 40-line alphabet, all sequences of <=4 of 11 lines, all whitespace masks, 8 poses (rigid, stretched, sheared, mirrored, far), files of up to 27000 faces",
    "3 and 2 deviations, sequences of <=5 lines, files of up to 120000 elements",
    "Faces with slashes, polygons and negative (relative) indices are refused by the library and are treated as malformed.")
add("C05", "exploration",
    "exhaustive bounded enumeration of ground elements against plain geometry",
    "a case is one vertex pair (with every third lattice vertex) at one scale and shift, one friction, or one flat normal height and scale with every horizontal part; non-trivial when an element was built",
    "all triangles on a 3x3x3 lattice x 4 scales/shifts x 3 constructors x 2 copies; 11 frictions x 9 normal heights x 5 scales x 16 directions x 4 origins; almost vertical triangles (shear 1e-4, 1e-7, 1e-10)",
    "4x4x4 lattice, 47 normal heights, 49 directions, 10 shears",
    "Degenerate triangles are outside the alphabet; normals and boxes are compared with values computed from the vertices.")
add("C06", "exploration",
    "exhaustive grid exploration of rib poses, planes and penetrations against the analytic chord",
    "a case is one rib, position and attitude tried on every slope and every penetration (two plane origins each); non-trivial when some penetration is a contact",
    "6 ribs x 3 positions x 5 yaw x 7 camber x 6 spin x 6 slopes x 19 penetrations x 2 origins; 5 whole wheels (up to 9 ribs, wide ones too) x 5 yaw x 7 camber x 2 spin x 6 slopes, the plane at 8 heights under every rib",
    "8 ribs x 3 x 9 x 13 x 9 x 9 slopes x 58 penetrations x 2",
    "Penetrations within rounding of grazing and ground planes within about half a degree of the rib plane are not decided.")
add("C07", "exploration",
    "exhaustive exploration of triangle multisets in every order/flip/numbering and of plane tessellations against the chord definition",
    "a case is one triangle multiset tried in every order, 5 flips and 3 numberings for every rib and pose, or one tessellated plane at one yaw and camber with every spin, rib and penetration; non-trivial when a contact was compared",
    "all multisets of <=3 of 10 triangles x all orders x 5 flips x 3 numberings x 8 poses x 2 ribs; radial walls in 8 directions; 11 tessellations x 4 slopes x 4 yaw x 4 camber x 3 spin x 8 penetrations",
    "multisets of <=4, 3 ribs, 12 tessellations, 6 yaw, 6 camber, 5 spin, 12 penetrations",
    "Configurations where a mesh vertex lies in the rib plane, a chord is below the library's resolution (0.2 mm half length) or passes through the rib centre are not decided, except mesh edges exactly in the rib plane (listed finding).")
add("C08", "exploration",
    "exhaustive exploration of scene pairs related by spin or rigid motion (metamorphic oracle)",
    "a case is one ground, wheel and attitude compared over all heights, offsets and spins, or one ground, motion and wheel over all attitudes, heights and methods; non-trivial when some scene is in contact",
    "9 grounds x 6 wheels x 9 attitudes x 8 positions x 9 spins; 9 grounds x 8 motions x 6 wheels x 9 attitudes x 4 heights x 2 spins x 2 methods",
    "13 grounds, 35 attitudes, 16 positions, 44 spins, 15 motions",
    "Coordinates are chosen off exact coincidences, where rounding may legitimately decide either way. Meshes are moved up to 300 km: farther, rounding of the coordinates reaches the resolution of the triangle tests.")
add("C09", "exploration",
    "exhaustive grid exploration of ribs, poses and layered grounds against the four-probe definition",
    "a case is one ground, rib, yaw and camber over all spins, positions and heights; non-trivial when some probe set is in contact",
    "16 grounds (3 layer orders) x 4 ribs x 4 yaw x 7 camber x 4 spin x 4 positions x 7 heights, 54 planar meshes aligned with the probes",
    "6 yaw, 11 camber, 7 spin, 7 positions, 12 heights",
    "Probes within 1e-6 of a triangle border are decided only on planar meshes; spins turning the probe diagonals vertical are not decided.")
add("C10", "exploration",
    "exhaustive grid exploration of wheels, poses and meshes: shell setup against every rib over the unpruned mesh",
    "a case is one mesh, wheel, yaw and camber over all spins, heights, places and both methods; non-trivial when some rib is in contact",
    "11 meshes x 8 wheels x 4 yaw x 5 camber x 2 spin x 6 heights x 3 places x 2 methods; wheels of 64 and 201 ribs in a few of these poses",
    "8 yaw, 10 camber, 4 spin, 10 heights",
    "The rib evaluation itself is trusted here (decided by C06, C07, C09); coordinates avoid mesh vertices exactly in a rib plane.")
add("C11", "exploration",
    "exhaustive grid exploration of wheels, grounds, poses and methods against recomputed aggregates",
    "a case is one ground, wheel, yaw and camber over all heights, offsets, spins and methods; non-trivial when some rib is in contact",
    "16 grounds x 6 wheels x 3 yaw x 4 camber x 6 heights x 2 offsets x 2 spins x 2 methods, every getter in its three forms with 3 output sizes",
    "20 grounds, 6 yaw, 8 camber, 10 heights, 3 offsets, 4 spins",
    "Totals with a volume between zero and 1.6e-8 m^3 (below the library's resolution) are not decided.")
add("C16", "exploration",
    "exhaustive grid exploration of wheels, grounds, poses and methods against frame axioms",
    "a case is one ground, wheel, yaw and camber over all heights, offsets, spins and methods; non-trivial when some scene is in contact",
    "12 grounds x 6 wheels x 4 yaw x 5 camber x 5 heights x 2 offsets x 2 spins x 2 methods",
    "16 grounds, 7 yaw, 9 camber, 9 heights, 3 offsets, 4 spins",
    "Frames with the axle along the contact normal are undefined and not decided.")
add("C17", "exploration",
    "exhaustive grid exploration of contact-free, aligned and degenerate scenes against the idle definition and ranges",
    "a case is one ground, wheel, yaw (and camber) over all remaining pose coordinates and methods; non-trivial when a rib is in contact or the ground cannot be touched",
    "16 grounds x 6 wheels x 3 yaw x 3 camber x 7 heights x 2 offsets x 2 spins x 2 methods; 33 walls, floors and extreme triangles x 6 wheels x exactly aligned poses",
    "20 grounds, 6 yaw, 7 camber, 11 heights, 3 offsets, 4 spins; same aligned set",
    "A rib counts as out of contact when its area and volume are zero; meshes that cannot be touched must give that.")
add("C12", "model_checking",
    "exhaustive operation-sequence exploration of one real shell, every step compared with brand-new shells",
    "a case is three operations followed by every operation, run on one shell (all prefixes compared), or one rib count with all setups in sequence; non-trivial when some setup gave contact",
    "all sequences of length 4 over 29 operations (20 setups, 2 refused setups, 3 resizes, 3 moves, queries); rib counts 1 to 333; drives of 24 to 300 setups in steps of 1e-9 to 1 in 8 ways",
    "all sequences of length 4 over 43 operations (34 setups)",
    "Every history up to the bound is executed on the real class; outputs are compared bit for bit.")
add("C13", "exploration",
    "exhaustive enumeration of shapes, rib counts and resize histories against the tiling definition",
    "a case is one shape with every rib count (new and resized), one resize history, one refused shell or one rib; all are non-trivial",
    "900 shapes x 52 rib counts, all 1296 resize histories of length 4, 10 refusal cases, 36 ribs",
    "3072 shapes x 100 rib counts, all 46656 resize histories of length 6",
    "Shapes with degree Mx below 0.7 beyond their profile are outside the alphabet.")
add("C14", "exploration",
    "exhaustive enumeration of shapes and positions against the closed-form profile and derivative",
    "a case is one shape evaluated at every position of its grid, both signs, and beyond its ends; all are non-trivial",
    "4096 shapes x 187 positions x 2 signs", "27300 shapes x 427 positions x 2 signs",
    "Within 1e-6 m of the middle the slope is only checked at the middle itself; at a profile end of zero radius only the radius is.")
add("C15", "model_checking",
    "exhaustive motion-sequence exploration of the real shell against reference matrices; exhaustive enumeration of deviations for the pose check",
    "a case is one motion sequence (all prefixes compared) or one attitude of the pose check with every deviation; all are non-trivial",
    "all sequences of length 3 over 22 operations (tiny, full-turn and non-unit-axis rotations included) and of length 6 over 5; 36 attitudes x 6 spins x 3 places x 122 deviations",
    "length 4 over 22 and 8 over 5; 100 attitudes x 10 spins",
    "Deviations below 1e-3 and above rounding are not decided for the pose check.")
add("C18", "model_checking",
    "exhaustive call-sequence exploration of the real S-function interface against the library used directly",
    "a case is two calls (or an init and two calls) followed by every continuation, one rib count with every step, or one lifecycle; non-trivial when some step gave contact",
    "all call sequences of length 3 over 27 calls and of length 4 after a valid init, 61 rib counts up to 333, 12 lifecycles",
    "all call sequences of length 4, length 5 after a valid init with every third step",
    "The output bus lies between guard words and is compared bit for bit; the interface keeps one global instance by design.", sfun=True)
add("C19", "model_checking",
    "stateless exploration of thread schedules of the real code (switch before every shared access, preemption bounds 1 and 2, conflict detection) and of all operation interleavings",
    "a case is one pair or triple of thread programs with all its schedules, or one operation triple against all triples of a second wheel in all 20 merges; non-trivial when shared memory was accessed",
    "81 program pairs x 2 meshes at every shared access (bound 1), 16 pairs at bound 2 (up to 12000 switch pairs each), 64 triples of threads; 4096 operation triples x 20 merges",
    "3 meshes, every switch pair at bound 2, every shared access with three threads, 20736 operation triples",
    "Shared accesses are observed by compiler instrumentation of the library sources; conflict-free executions need only one schedule, the further ones are run as confirmation.",
    plain=["harness/c19rt.cc"], san=False,
    flags=["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"],
    ldflags=["-O2", "-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-Wl,--wrap=memset"])
add("C20", "model_checking",
    "exhaustive enumeration of box-set pairs and rebuild histories against brute-force overlap",
    "a case is one box set against all other sets, or all rebuild histories with two given first steps; non-trivial when some pair of boxes overlaps",
    "1885 sets (all sequences of up to 3 of 12 boxes) against each other, 143 structured sets of up to 100 boxes against each other, all rebuild histories of length 4 over 7 operations",
    "3616 sets (15 boxes), structured sets of up to 300 boxes, histories of length 5",
    "Pairs are compared as multisets of box pointers, in both argument orders and with the swap flag.", enve=False)
add("C21", "exploration",
    "exhaustive enumeration of boxes, box pairs and points on a lattice against interval arithmetic",
    "a case is one box against all points of the refined lattice and all boxes; all contain points of the lattice",
    "1000 boxes x (1000 boxes + 512 points) x 2 lattices, every corner order and hull order",
    "3375 boxes x (3375 boxes + 1000 points) x 4 lattices",
    "Comparisons are exact except for distances (1e-12 relative).", enve=False)
add("C22", "exploration",
    "exhaustive enumeration of line-like and surface pairs on a lattice under four similarities against an independent oracle",
    "a case is one surface and origin under one similarity with every direction, as line, ray and segment; non-trivial when some pair meets",
    "43 surfaces x 216 origins x 124 directions x 3 kinds x 4 similarities (scales 1/128 to 40, direction lengths x0.05 to x20)",
    "512 origins, 342 directions",
    "Entities touching in a single point of a common plane and crossings exactly on a disk rim are not decided.", enve=False)
add("C23", "exploration",
    "exhaustive enumeration of surface pairs and plane triples on a lattice under four similarities against an independent oracle",
    "a case is one pair of surfaces under one similarity with every relative shift, one triangle edge with every third vertex against a menu, one coplanar triangle pair family, or one plane normal with all others; non-trivial when some pair meets",
    "903 pairs of 43 planes, triangles and disks x 125 shifts x 4 similarities, all triangles on a 2x2x2 lattice, all coplanar triangles on a 3x3 grid against 9 in 4 planes, all triples of 26 normals with 8 offsets",
    "729 shifts, all triangles on a 3x3x3 lattice, 27 offsets",
    "Only non-parallel supporting planes; surfaces touching in a single point are not decided.", enve=False)
add("C24", "exploration",
    "exhaustive enumeration of line-like pairs, points, balls and planes on a lattice under four similarities against an independent oracle",
    "a case is one line, ray or segment against all others from one origin, one entity against all points, or one ball against all line-like entities or planes from one origin; non-trivial when some pair meets",
    "30 directions x 125 origins x 124 directions x 6 kind pairs (both orders for equal kinds) x 4 similarities; 432 points x 2600 entities; 7 balls x (216 origins x 124 x 3 + 125 x 124 planes)",
    "124 directions x 343 origins x 124 directions, 864 points",
    "Collinear entities touching in a single point, tangent balls and points exactly on a disk rim are not decided.", enve=False)
add("C25", "exploration",
    "exhaustive enumeration of ordered entity pairs on a lattice under four similarities against an independent oracle",
    "a case is one pair of entities under one similarity with every relative shift and both argument orders; non-trivial when some pair meets",
    "all pairs of 94 entities of eight kinds x 125 shifts x 2 orders x 4 similarities",
    "all pairs of 227 entities x 343 shifts",
    "Kinds whose common set is no entity (coplanar triangles or disks, ball with point, triangle, disk or ball) are declared unsupported by the library; single contacts inside a common plane or line, on a disk rim or tangent to a ball are not decided.", enve=False)
add("C26", "exploration",
    "exhaustive enumeration of ordered entity pairs on a lattice under four similarities against exact relations",
    "a case is one pair of entities under one similarity with every relative shift, generic form in both orders and typed form, or one vector against everything; non-trivial when some relation holds",
    "all pairs of 92 lines, rays, segments, planes, triangles and disks x 125 shifts x 4 similarities; 124 vectors x (92 entities + 124 vectors)",
    "all pairs of 528 entities x 27 shifts",
    "Coplanarity of a point or ball with anything is not defined by the library (always refused).", enve=False)
add("C27", "exploration",
    "exhaustive enumeration of entities and points on a lattice under four similarities against exact geometry",
    "a case is the measures of one entity, its containment of every point, or one vector's angles with all others; non-trivial when the entity contains one of the points",
    "1488 lines, rays, segments and planes, all triangles on a 2x2x2 lattice, 400 disks, 88 balls x 729 half-lattice points plus points of the entity and off it x 4 similarities",
    "4104 linear entities and planes, all triangles on a 3x3x3 lattice x 2197 points",
    "Points on a disk rim or sphere, within rounding of an entity, or near a line's origin and off the line are not decided; collinear triangles may or may not count as degenerated; the box of a disk need only contain it.", enve=False)
add("C28", "model_checking",
    "exhaustive operation-sequence exploration of the real entities against reference motions",
    "a case is one entity and first operation with every continuation (each operation also undone), or one pair of entities moved by every two motions; all states of a sequence are compared",
    "39 entities of eight kinds x all sequences of length 4 over 9 motions and 3 reversals, each step with its inverse; 2000 pairs x 5 shifts x 81 double motions; 49 entities, degenerate ones too, under 25 motions of sizes 1e-8 to 1e6",
    "48 entities, sequences of length 5",
    "Motions are rigid; non-rigid affine transforms and rotation about a zero axis are not decided.", enve=False)
add("C29", "model_checking",
    "exhaustive operation-sequence exploration of real entity collections against a list model",
    "a case is a start content and two operations with every continuation, the full state compared after each operation; non-trivial when a collection holds entities or box pairs overlap",
    "all sequences of length 3 over 33 operations from 8 starting contents (up to 12 entities, degenerate ones of every kind); collections of 33 to 300 entities, indexed, before and after every operation; 20 motions of sizes 1e-8 to 1e5", "all sequences of length 4",
    "The index is queried only when built after the last change, as its interface requires; every entity is held once; entities are shared between a collection and its copies.", enve=False)
MEXH = ["harness/mex/mexrt.cc"] + ["harness/mex/unit_%s.cc" % k for k in ("flat", "mesh", "shell", "triangleground")]
add("C30", "model_checking",
    "exhaustive exploration of call histories of the real MEX functions (on a stand-in MATLAB API) against the library used directly",
    "a case is one call history (all outputs compared with the library after each call, memory and locks balanced) or one command with every wrong argument; non-trivial when an object was queried",
    "all shell histories of length 3 over 15 calls x 3 shapes, flats, trianglegrounds of length 3, meshes of length 2, lifetimes of length 4 in 3 slots; 73 commands x every wrong count and argument",
    "lengths 4, 4, 4, 4 and lifetimes of length 5",
    "MATLAB itself is not available: the C API is a stand-in that raises errors as exceptions. Use of a deleted handle is undefined by the interface and not explored.",
    incs=["harness/mex"], repo_incs=["toolbox/src_mex"])
CHECKS["C30"]["harness"] += MEXH
add("C31", "model_checking",
    "exhaustive exploration of call histories of the toolbox classes (interpreted, calling the real MEX functions) against the library used directly",
    "a case is one call history of one object or pair of objects, every method compared with the twin library object afterwards; non-trivial when a setup found contact or a pair was exercised",
    "all shell histories of length <=3 over 15 calls x 3 shapes; flats, trianglegrounds and meshes of length <=3 over 12, 9 and 6 calls x 4 partners; pictures up to length 1",
    "lengths <=4, pictures up to length 2",
    "MATLAB itself is not available: the class files run in a small interpreter of the language with stand-ins of the MEX API, the acme classes and the drawing commands. What the interpreter does not know is not decided.",
    san=False, incs=["harness/mex"], repo_incs=["toolbox/src_mex"])
CHECKS["C31"]["harness"] += MEXH
add("C32", "model_checking",
    "exhaustive enumeration of copy/change histories over three real objects of every kind, against value semantics, and of one-value differences at every tolerance",
    "a case is one operation sequence over three objects (every observable compared with a freshly built object after each operation) or one pair differing in one value; every case is non-trivial",
    "13 kinds: all sequences of length 3 over 21 operations; every value x 3 differences x 3 starting objects; mesh sequences of length 3", "sequences of length 4 for the kinds with their own copy(), mesh sequences of length 5",
    "Differences close to the tolerance are not decided. The number of a ground triangle does not take part in its comparison.")
add("C33", "model_checking",
    "exhaustive enumeration of object values and shell histories, each printed report read back and compared with the object",
    "a case is one object value combination, box sequence, mesh or shell history, printed, read back and printed again; every case is non-trivial",
    "14 kinds with any two values from their menu, box trees of up to 5 of 7 boxes, meshes of up to 4 of 5 triangles, 6 wheels x all histories of 2 over 32 operations",
    "any three values, trees of 6, meshes of 5, histories of 3",
    "Reports are read at their printed precision of six digits. What a shell reports before its first setup is undefined.")
add("C34", "exploration",
    "exhaustive enumeration of entity pairs at known small deviations x tolerances on the real geometric tests",
    "a case is one pair of kinds (or one kind) in one arrangement at one deviation, put to every form of each test at eleven tolerances; every case is non-trivial",
    "36 ordered pairs of 6 kinds x 3 arrangements x 13 axes x 7 deviations from 0 to 1e-3 x 8 shifts x 2 poses; containment (segments up to 40 km), sizes, crossings and common parts likewise; tolerances 1e-10..0.05 and the default",
    "26 axes, 12 deviations, 3 poses",
    "A deviation within a factor 40 of the tolerance is left open. Disk rims and balls are exact by design and excluded.")
add("C35", "model_checking",
    "exhaustive enumeration of operation histories (refused operations included) on the real objects, with the bytes and files held before and after counted",
    "a case is one operation sequence, run twice and counted, repeated and counted; non-trivial when it has an operation",
    "all sequences of <=3 of 21 mesh, 20 collection, 12 box tree and 19 S-function operations, <=2 of 44 wheel operations at 2 sizes, 18 refused wheels, all ordered pairs of 17 entities at several maps",
    "sequences of <=4 (mesh, collection, tree, S-function) and <=3 (wheel)",
    "Counts the bytes held from the C library, which an intentional cache of bounded size filled on first use does not change.", sfun=True)
