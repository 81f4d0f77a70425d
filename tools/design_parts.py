HEAD = """# Model checking StoccoDavide/enve

(generated by tools/mkdesign.py from tools/design_parts.py, checks.py, known_findings.txt and seeded/)

## Approach

enve is a numerical library: a user calls it with meshes, planes, wheels and poses, one call after the other, from
MATLAB, Simulink or C++.  Nothing in it is a protocol small enough to be modelled apart from the code, so the family's
first form is used throughout: **stateless, exhaustive exploration of the implementation itself** within stated
bounds.  Every check compiles the sources of /repo's working tree (address and undefined-behaviour sanitizers, library
assertions), links them with one enumerator from `harness/`, and executes *every* element of a bounded space - every
operation sequence up to a depth, every thread schedule up to a preemption bound, every file text within a number of
line deviations, every input of a finite alphabet - and compares each execution with an independent reference.
Nothing is sampled and no solver is involved.  The references are models in the usual sense (a list for a mesh, value
semantics for copies, a set of box pairs for a tree, exact rational geometry for intersections, the analytic chord for
a rib); since each explored execution is run on the real code and compared after each step, every model trace is
replayed against the implementation by construction, and there is no separate model that could drift from the code.

Level names: `model_checking` is used for the checks whose space consists of histories, lifecycles or schedules (state
and transition counts are reported); `exploration` for those whose space is a bounded input space.

Parts:

- `run.py` builds (object cache under build/, keyed by content), splits the space over 8 shards, turns sanitizer
  reports, crashes and hangs into violations of the case being run (re-run alone for confirmation), matches violations
  with `known_findings.txt`, writes evidence/<id>.json and replays/<id>.txt.  A replay names the case number:
  `python3 run.py <id> --case N` runs that case alone.
- `mc/mc.hh` the enumeration core: case numbering, sharding, hashing of states/outcomes, crash attribution.
- `harness/` one enumerator and oracle per property; `common.hh`, `scene.hh`, `chord.hh`, `acmegeo.hh`, `acmeres.hh`,
  `meshfile.hh` hold the reference models; `c19rt.cc` is the controlled scheduler; `harness/mex` the stand-in MATLAB API.
- `checks.py` bounds; `tools/` generators for properties.jsonl, MANIFEST.json, this file and the planted bugs.

Rules kept by all harnesses: only the public API is used, so any refactoring that keeps behaviour leaves them quiet;
tolerances are orders of magnitude wider than rounding and orders of magnitude narrower than the effect of a wrong
formula; configurations in which rounding may legitimately decide either way (grazing contact, points exactly on a
rim, coordinates coinciding with a mesh edge) are kept out of the alphabet or left undecided, and that is stated for
each check.  No hook was needed in /repo: schedules are controlled by compiler instrumentation of the unchanged
sources (`-fsanitize=thread` callbacks implemented by the harness, without the TSan runtime).

The enve sources exist twice (src and toolbox/src).  When the two copies differ in more than comments and white space,
every check explores both.
"""
COST = {"C01": "15 s", "C02": "7 s", "C07": "60 s", "C10": "60 s", "C12": "25 s", "C13": "15 s", "C19": "60 s", "C23": "9 s / 17 s", "C24": "13 s / 70 s", "C25": "11 s / 62 s", "C26": "7 s / 11 s", "C27": "8 s / 51 s", "C28": "9 s / 39 s", "C29": "9 s / 130 s", "C30": "18 s / 4 min", "C32": "15 s / 4 min", "C33": "10 s / 75 s", "C34": "15 s / 2 min", "C35": "30 s / 6 min"}
d("C01", "every mesh of a finite alphabet (menu sequences including coincident, flat and far triangles under several id schemes, lattice boxes, structured meshes) is queried with every lattice box; the result is compared with a scan of all triangles by closed-interval overlap.", "a box tree fails only for particular splits: coincident centres, odd counts, ids that are no positions. The tests load one mesh each and compare nothing.")
d("C02", "all operation sequences over two meshes (load RDF/OBJ good and bad, copy, self copy, clear, construct); after each the mesh is compared with the list of triangles it should hold (size, elements, box queries).", "stale trees or half-loaded meshes appear only after a second operation; the tests never perform one.")
d("C03", "every text within k line deviations of valid files, and all short sequences over a line alphabet; a reference parser written from the file description decides acceptance and content.", "the tests load only well-formed files.")
d("C04", "as C03 for OBJ, with caller-given friction and poses.", "the tests load only well-formed files.")
d("C05", "every triangle on an integer lattice at several scales and shifts, through every constructor and copy; normals, boxes, friction and refusals are computed from the vertices.", "the tests build a handful of triangles and check none of these invariants.")
d("C06", "the chord of a circle and a plane in closed form, over a full grid of rib poses, slopes and penetrations.", "the tests print contact results for one pose and compare nothing.")
d("C07", "for every multiset of triangles in every order, flip and numbering, the chords cut from the rib disk by plain geometry (chord.hh), their slices and volume-weighted aggregates.", "the order of triangles, the sign of their normals and the number of chords are exactly what a sampled test fixes.")
d("C08", "two real executions related by a spin or rigid motion must agree; no expected numbers are needed. Motions reach map coordinates (300 km on meshes, 5 000 km on flat ground), with tolerances of 1e-13 of the distance: this found that shallow contacts were lost there (repaired).", "a formula that uses a world axis instead of a wheel axis is right at the test pose.")
d("C09", "four vertical probes against the highest ground point by plain geometry; their mean, diagonal normal, friction and foreshortened depth.", "the tests use sampling on one mesh and compare nothing.")
d("C10", "a shell set up on a mesh against every rib evaluated by the library itself over all triangles: pruning must be invisible.", "pruning errors need poses at which a triangle is just touched.")
d("C11", "sums, volume-weighted means and fall-backs recomputed from the per-rib outputs; every getter in its scalar, indexed and vector form.", "the tests print.")
d("C12", "all sequences of setups, refused setups, resizes, moves and queries on one shell; after each the outputs are compared bit for bit with those of a brand-new shell.", "leaks of an earlier setup need a particular second setup.")
d("C13", "rib positions, widths, radii and angles from the closed-form profile for all rib counts and shapes; all resize histories, also of wheels wider than their profile, for which some sizes are refused and must change nothing.", "the tests use ten ribs of one shape.")
d("C14", "closed form and derivative of the hyperellipse over all shapes and positions of a lattice.", "the tests evaluate one shape.")
d("C15", "reference 4x4 matrices composed step by step along all motion sequences; the pose check against every single-entry and structured deviation.", "composition order and axis length matter only in sequences.")
d("C16", "frame axioms (orthonormal, right-handed, z along the normal, origin at the point, x across the axle) and an independent Euler decomposition.", "the tests print.")
d("C17", "idle values by definition; finiteness and ranges elsewhere, including exactly aligned walls, floors and degenerate triangles.", "NaN appears only in exactly aligned scenes.")
d("C18", "all call sequences of the S-function entry points (valid and invalid init, steps with every selector, poses on, off and beside the mesh, end), the output bus between guard words compared bit for bit with a directly used shell.", "no test calls the S-function interface.")
d("C19", "real threads under a controlled scheduler: every memory access of the library to shared memory is a switch point, all schedules up to the preemption bound are executed, conflicting accesses are recorded by address, and every result is compared with the sequential one.", "a race needs one particular switch; the tests are single-threaded.")
d("C20", "brute-force overlap of all pairs, in both argument orders and with the swap flag, for all pairs of box sets; rebuild histories.", "the trees are used only through meshes in the tests.")
d("C21", "interval arithmetic on a lattice; brute-force nearest and farthest points.", "no test uses the boxes.")
d("C22", "an independent oracle in small rationals decides whether and where the closed sets meet; four similarities carry the lattice to other scales, so absolute tolerances are exposed.", "the tests exercise one or two pairs.")
d("C23", "the shared set of two surfaces computed independently from the lattice coordinates.", "the mesh tests exercise triangle/disk only.")
d("C24", "as C22 for line-like pairs, balls and points; collinear pairs by parameter intervals.", "no test calls these.")
d("C25", "all ordered pairs of entities of every kind: the entity returned must be the common set computed by the oracle, in both argument orders.", "no test calls the generic form.")
d("C26", "exact relations of integer vectors.", "no test calls these.")
d("C27", "exact point-set membership and closed-form measures over the lattice.", "no test calls these.")
d("C28", "all sequences of motions and reversals; the moved entity is compared with the reference motion applied to its points, each step is undone by its inverse, and intersections commute with motions.", "no test transforms an entity.")
d("C29", "a list of kinds and identities; all sequences of insertions, removals by kind, resizes, clears, motions, indexing and copies, every query after each.", "no test uses collections.")
d("C30", "every MEX command is executed on a stand-in MATLAB API (mxArray, errors as exceptions, mexLock counted, memory accounted); a second object built directly with the library is the reference for every output; call histories up to a depth over several objects, and each command with every wrong argument count, class, size and index.", "no test calls the MEX functions; neither MATLAB nor Octave is available here.")
d("C31", "the class files are run by an interpreter of the language's subset they use (`harness/matlab.hh`: classes, control flow, matrices, cells, texts, structures, functions), which calls the real MEX functions on the stand-in API; every method after every history is compared with a second object of the library, handles are tracked for lifetime, and drawing commands are recorded and compared with the geometry. Code outside the subset is reported as undecided, never as a violation.", "no test runs the classes; neither MATLAB nor Octave is available here. Explored states are histories of the class code itself.")
d("C32", "value semantics: three objects of a kind, all sequences of copies, assignments, clones, changes and rebuilds; after each step each object must behave like one freshly built from its values. Equality is probed with every single-value difference at tolerances a thousand times above and below it.", "no test copies or compares objects.")
d("C33", "every report is printed, read back label by label and compared with the queries made at the same moment; value combinations, box sequences (each printed box must be the hull of the given boxes inside it), mesh contents over an older longer file, and shell histories.", "no test reads a report.")
d("C34", "every ordered pair of kinds is put in parallel, orthogonal and oblique arrangements, turned and shifted by known amounts from 0 to 1e-3, and every form of every test is asked at eleven tolerances; the answer is compared with the measured deviations wherever tolerance and deviation differ by a factor of 40 or more. Points beside, before and beyond; gaps between crossing entities; shared stretches; planes through surfaces; segments touching end to end over a grid of gaps around the tolerance.", "a forgotten tolerance argument changes nothing for exact inputs, the only ones the tests use.")
d("C35", "all sequences of mesh, wheel, collection, box tree and S-function operations, good and refused, run on fresh objects twice; the bytes held from the allocator and the open files must be the same before and after, the last operation repeated ten times must not raise them, and weak references tell whether triangles, boxes and entities live exactly as long as a holder.", "a leak on a refused call or a cycle of owners shows only after many repetitions; the tests end after one.")
TAIL = """## What is deliberately not claimed

- The determinant tolerance of the pose check and the epsilon of the chord code are absolute; sizes of millimetres are
  below the library's resolution (chords with half length below 0.12 mm, wheel volumes below 1.6e-8 m^3).
- Private, unused code (AABBtree::minimumExteriorDistance, selectMinimumDistance), functions declared but never
  defined (rib::id, shell(size, shape), collection::rotate by axis name), and the inherited transform of a
  ground triangle (its cached normal and box keep the old pose).
- In-plane segment functions of acme assume coplanarity of their arguments; that is their precondition.
- The shape of a box tree (where it splits) is not observable and not claimed, only what its queries return.
- Numbers in mesh files that are followed by other characters (1.5x, an index 1.5) are read up to those characters; only
  v/vt/vn indices of OBJ faces are decided (the vertex index counts, or the line is rejected).
- Of the MATLAB classes: looks of pictures (colours, limits, labels), the order in which a picture's rings are drawn,
  and the memory behind handles that queries hand out (the wrapper copies them and leaves the temporary to MATLAB's
  lifetime). The stale script enve_test_setup_mesh.m passes one argument too many to profile(); tests may not be edited.
- A box tree over n boxes nested on one side is n levels deep and needs memory of the order of n squared (13 GB at
  n = 40000): a resource limit. The checks keep nested families at 600.

## How the checks themselves were tested

- Planted bugs (last section): each written from a property's text, kept whether caught or not.
- Mutation: about 400 single-place changes of the sources (comparison and sign flips, dropped statements, thresholds on
  sizes, counts and angles, tolerances replaced by the default one) were run against the checks of the files they touch.
  What survived and was not equivalent led to more cases: ribs of 12 mm and 2.2 m (C06), axles within 4 degrees of
  vertical (C09), wheels of 64 and 201 ribs (C10), exponents up to 30 (C14), collections of 300 entities (C29), swapped
  arguments and misses between 1e-10 and the default tolerance (C34), over-long lines (C03, C04).
- Refactorings: a copy with helpers extracted, loops rewritten, statements reordered and containers exchanged in rib,
  mesh, shell, box tree, box, collection, intersection, triangle and the S-function: all checks quiet, also when every
  source is compiled with fused multiply-add (C19 aside, whose instrumentation excludes that build).

## False alarms that were corrected

- C07 first required the plain mean of triangle normals; the code's documented definition is the volume-weighted mean
  of the chords' inward directions. The oracle was corrected.
- C08 compared idle ribs under spin; idle outputs are defined with the wheel's z axis, so only touching ribs are compared.
- C08 and C11 compared totals of volumes below the library's resolution; such totals are no longer decided.
- C10 demanded that sampling over the preselected triangles equals sampling over the whole mesh; a probe line is
  unbounded, so the claim is now about the triangles touching the wheel's box.
- C17 required a volume of at least zero; sums of slices may come out negative by rounding. A rounding-size tolerance
  was added.
- C25 reported an allocation mismatch caused by building the harness in another C++ dialect than the library; the
  harnesses are now built so that alignments agree.
- C30 required every profile query to succeed; beyond the wheel width the library refuses, and then the MEX function must, too.
"""
