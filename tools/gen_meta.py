#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below.

Run by hand after editing it: python3 /verif/tools/gen_meta.py
"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "tracer/"

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms, technique
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
        files=[T + f for f in files], mech=[dict(name=n, where=T + w) for n, w in mech],
        technique=technique, note=note))

prop("C01", "Each ray interacts with the first surface in its way, and only with it",
 "In every trace, each ray that is still being followed interacts with exactly one surface, the first one it meets "
 "going forward (meeting points within a millionth of a length unit of its start do not count), and the rays it leaves "
 "behind start at that meeting point; a ray that meets no surface leaves none. This holds for any number and mix of "
 "surfaces, however small, nested, moved or closely spaced, on every bounce of the trace; only exact ties in distance "
 "are left open.",
 ["inputs", "configurations", "histories"], "every scene, every source bundle, every bounce",
 "Tests trace a few rays through two or three hand-placed surfaces; the guarantee is over all scenes and all bounces, "
 "and depends on which other surfaces and rays are present.",
 ["tracer_engine.py", "surface.py", "assembly.py", "flat_surface.py", "quadric.py"],
 [("selection of the closest forward intersection per ray", "tracer_engine.py: TracerEngine.intersect_ray"),
  ("dispatch of the selected rays to their surface", "tracer_engine.py: TracerEngine.ray_tracer")],
 "trace monitor: every recorded bounce replayed against an independent scalar reference geometry",
 "Random nested scenes of all surface kinds and optics, hostile spacings; every recorded ray of every level is checked against a reference nearest-hit search.")

prop("C02", "The record of a trace attaches every ray to the ray that produced it",
 "For every ray recorded at any level of a trace, the recorded parent is the ray of the previous level that produced it, "
 "so following parents from any ray leads level by level to the source ray it descends from, and asking for a ray's "
 "history returns exactly that chain of indices. Rays dropped for low energy are recorded too, with their true parents, "
 "and no produced ray is missing from the record, recorded twice, or attached to another ray.",
 ["inputs", "configurations", "histories"], "every trace: any scene, branching pattern, energy threshold, number of bounces",
 "Tests check two or three levels of a fixed scene; parent indices are remapped at several places whose interplay "
 "depends on branching, thresholds, ownership and surface order.",
 ["tracer_engine.py", "trace_tree.py", "optics_callables.py", "ray_bundle.py"],
 [("remapping of parents to the full bundle, weak rays moved last", "tracer_engine.py: TracerEngine.ray_tracer"),
  ("history lookup", "trace_tree.py: RayTree.ray_history, RayTree.ordered_parents")],
 "trace monitor: lineage recomputed from geometry, and from identity tags carried by the rays",
 "Each child is matched to the reference children of its recorded parent and to an identity tag planted on the source rays.")

prop("C03", "Energy is conserved at every interaction and over the whole trace",
 "At every interaction the energy of the rays that leave plus the energy the surface absorbs equals the energy that "
 "arrived, for any absorptivity, refractive indices and angle, and no ray ever carries negative, undefined or more "
 "energy than the ray it comes from. Over a whole trace the source energy equals what surfaces absorbed, plus what "
 "escaped, plus what was dropped as too weak, plus what is still travelling at the end.",
 ["inputs", "configurations", "histories"], "every scene, bundle and bounce",
 "Tests compare energies of a handful of rays on one bounce; conservation has to hold for every angle (critical, "
 "normal, grazing), index pair, absorptivity and for the sum over a branching trace.",
 ["optics_callables.py", "optics.py", "tracer_engine.py", "ray_bundle.py"],
 [("absorption and Fresnel splitting", "optics_callables.py: Reflective, RefractiveHomogenous, LambertianReflector, AbsorberReflector"),
  ("weak rays kept in the record", "tracer_engine.py: TracerEngine.ray_tracer")],
 "energy-ledger monitor around the optics of every surface, with whole-trace balance",
 "The optics of every surface are wrapped by a ledger that books arriving and leaving energy of each ray; the balance is closed for each call and for the trace.")

prop("C04", "A trace obeys its energy threshold, bounce limit and history switch",
 "A trace follows the source rays and, of the rays produced on the way, exactly those whose energy exceeds the given "
 "minimum, for at most the requested number of bounces, and stops as soon as no followed ray is left or none hits anything. The returned positions and directions are those "
 "of the rays still followed after the last bounce, in the order of the record, rays at or below the minimum are "
 "recorded but never interact again, and choosing not to keep the history changes only which bounces are stored, not "
 "what is traced or returned.",
 ["inputs", "configurations"], "every scene, threshold, bounce limit and history setting",
 "Tests use one threshold and one limit; the guarantee is over all thresholds (including equality), limits, and mixes of "
 "weak and strong rays across surfaces.",
 ["tracer_engine.py", "ray_bundle.py", "trace_tree.py"],
 [("deletion of weak rays, early stop, last-bundle recording", "tracer_engine.py: TracerEngine.ray_tracer"),
  ("ray removal", "ray_bundle.py: RayBundle.delete_rays")],
 "trace monitor on followed/recorded/returned rays, with paired runs (history on/off, shorter limits)",
 "Counts and identities of followed rays per level are compared with the threshold rule, with the returned arrays, and between paired runs.")

prop("C05", "A ray's fate does not depend on the other rays traced with it",
 "For any scene and bundle, the descendants of a ray - their positions, directions, energies, refractive indices and "
 "extra properties at every bounce - are the same whether it is traced alone, with any other rays, in any order, or in "
 "any split into batches. The same holds for a single surface asked about the rays' intersections.",
 ["inputs", "configurations"], "every scene, bundle, permutation and partition",
 "Needs pairs of executions over all bundles; tests run single bundles.",
 ["tracer_engine.py", "quadric.py", "flat_surface.py", "sphere_surface.py", "paraboloid.py", "cylinder.py", "optics_callables.py", "triangular_face.py"],
 [("per-ray array computations", "tracer_engine.py: TracerEngine.intersect_ray"),
  ("per-ray root selection", "quadric.py: QuadricGM.find_intersections, _select_coords of its subclasses")],
 "relational monitor: descendants of each ray compared across subset, permuted and batched runs",
 "Identity tags on the rays pair descendants across runs; hostile companions (exact self hits, misses, grazing) are mixed in.")

prop("C06", "Moving the whole scene and its rays together changes nothing else",
 "If a scene and its source rays are rotated and translated together, every recorded ray is rotated and translated with "
 "them, while hits, ancestry, energies and refractive indices stay the same. It makes no difference whether the motion "
 "is given to the outermost assembly, to the objects inside it, or to each surface.",
 ["inputs", "configurations"], "every scene, bundle and rigid motion, applied at any level of nesting",
 "Tests rotate single surfaces by a few convenient angles.",
 ["has_frame.py", "assembly.py", "object.py", "surface.py", "flat_surface.py", "quadric.py", "paraboloid.py", "cylinder.py", "sphere_surface.py", "triangular_face.py", "boundary_shape.py"],
 [("composition of frames", "assembly.py: Assembly.transform_children; object.py: AssembledObject.transform_children"),
  ("conversion between world and local coordinates", "quadric.py, flat_surface.py, paraboloid.py, cylinder.py, sphere_surface.py: find_intersections, _normals, _select_coords")],
 "relational monitor: traces of the original and the moved scene compared ray by ray",
 "Same scene built at different placements and nesting depths; whole traces are mapped back and compared.")

prop("C07", "A member's world placement is the product of its containers' placements",
 "After any sequence of building, adding, replacing and moving members, once placements are propagated from the "
 "outermost assembly (which building it, adding to it and setting its placement do by themselves), a surface's or boundary's world placement is the product of the placements of all its containers "
 "from the outermost inwards, times its own. The location, rotation and transform read from anything placeable always "
 "agree with each other and with what was last set, and no two placeable things, nor the caller's arrays, affect each "
 "other through shared data.",
 ["histories", "inputs"], "every sequence of construction and placement operations on any nesting",
 "Tests perform one or two placements; aliasing and stale frames need longer histories.",
 ["has_frame.py", "assembly.py", "object.py", "surface.py", "boundary_shape.py"],
 [("local frame storage", "has_frame.py: HasFrame.set_transform, set_location, set_rotation, transform_frame"),
  ("propagation", "assembly.py: Assembly.add_object, add_assembly, set_transform, transform_children; object.py: AssembledObject.add_surface, transform_children")],
 "state-machine monitor: random operation histories checked against a shadow model of all frames",
 "Random operation sequences with mutation of the caller's arrays; every frame read back after each step is compared with a shadow copy.")

prop("C08", "Flat shapes are hit exactly where a ray crosses their outline",
 "A ray hits a plane, rectangle, disk or triangle exactly when, going forward, it crosses the shape's plane inside the "
 "shape's outline, and the reported distance and point are the true ones; rays that are parallel, receding or pass "
 "outside are reported as missing. This holds for every size, aspect, placement, ray direction and side.",
 ["inputs", "configurations"], "every shape, placement and ray",
 "Tests fire a few axis-aligned rays at shapes of fixed size.",
 ["flat_surface.py", "triangular_face.py", "surface.py", "geometry_manager.py"],
 [("plane intersection", "flat_surface.py: FlatGeometryManager.find_intersections"),
  ("trimming", "flat_surface.py: RectPlateGM.find_intersections, RoundPlateGM.find_intersections; triangular_face.py: TriangularFace.find_intersections")],
 "reference-model monitor on the surface protocol (register, select, outgoing, done)",
 "Every reported parameter, hit point and miss is compared with a scalar reference; edge-near rays within rounding are skipped and counted.")

prop("C09", "Curved shapes are hit at the first forward point on the retained part",
 "A ray hits a sphere, hemisphere, sphere cut by a volume, paraboloid, round or hexagonal dish, or an infinite or finite "
 "cylinder at the nearest forward point that lies on the retained part of the shape, and misses it if there is none; the "
 "reported distance and point are the true ones. This holds from outside, inside and on the shape, along or across its "
 "axis, near or far, for every size and placement.",
 ["inputs", "configurations"], "every curved shape, placement and ray",
 "Tests fire a few rays per shape; the choice between the two roots depends on the ray, on trimming and on which side it starts.",
 ["quadric.py", "sphere_surface.py", "paraboloid.py", "cylinder.py", "boundary_shape.py"],
 [("root finding and root choice", "quadric.py: QuadricGM.find_intersections, QuadricGM._select_coords"),
  ("trimming", "sphere_surface.py: HemisphereGM, CutSphereGM; paraboloid.py: ParabolicDishGM, HexagonalParabolicDishGM; cylinder.py: FiniteCylinder")],
 "reference-model monitor on the surface protocol (register, select, outgoing, done)",
 "Every reported parameter, hit point and miss is compared with a numerically stable scalar reference; ambiguous rays (tangent, edge) are skipped and counted.")

prop("C10", "Surface normals are unit, perpendicular and face the arriving ray",
 "For every hit on any shape, the reported normal has unit length, is perpendicular to the shape at the hit point, and "
 "lies on the side from which the ray arrives. Normals are reported in the order of the selected rays, for any "
 "selection, placement and direction of arrival.",
 ["inputs", "configurations"], "every shape, placement, hit point, arrival side and selection",
 "Tests look at a few symmetric points.",
 ["flat_surface.py", "quadric.py", "sphere_surface.py", "paraboloid.py", "cylinder.py", "triangular_face.py"],
 [("normals of flat shapes", "flat_surface.py: FlatGeometryManager.get_normals"),
  ("normals of curved shapes", "sphere_surface.py, paraboloid.py, cylinder.py: _normals")],
 "reference-model monitor comparing each reported normal with the reference surface gradient",
 "All shapes, random selections and orders, both sides.")

prop("C11", "Mirrors reflect specularly, absorb their share and are opaque from behind",
 "A mirror sends every ray it meets off from the hit point, mirrored about the surface normal with a unit direction, "
 "carrying the energy left after the given absorptivity and otherwise unchanged. One-sided mirrors and receivers do "
 "this on the side their Z axis points to, and whatever arrives from the other side goes on with no energy and is never "
 "counted as received.",
 ["inputs", "configurations"], "every mirror kind, shape, placement, absorptivity and arriving ray",
 "Tests reflect one or two rays at 45 degrees.",
 ["optics.py", "optics_callables.py", "geometry_manager.py", "models/one_sided_mirror.py"],
 [("reflection law", "optics.py: reflections"), ("absorptivity and sidedness", "optics_callables.py: Reflective, AbsorberReflector"),
  ("one-sided objects", "models/one_sided_mirror.py: rect_one_sided_mirror, one_sided_receiver")],
 "online monitor on optics calls against the vector reflection law",
 "Mirrors of all shapes and both sides, whole-trace and direct protocol runs.")

prop("C12", "Refraction obeys Snell's law, Fresnel's split and total reflection",
 "At a boundary between two media every arriving ray yields a reflected ray, and, unless it is totally reflected, a "
 "refracted ray that satisfies Snell's law in the plane of incidence, continues to the far side, and travels in the "
 "other medium's refractive index. The two share the energy by Fresnel's unpolarized reflectance (total reflection "
 "keeps all of it), directions stay unit vectors, and dispersion follows the stated Hartmann formula.",
 ["inputs", "configurations"], "every index pair, angle (normal, critical, grazing), shape, side and mix of rays",
 "Tests use one or two angles and one index pair.",
 ["optics.py", "optics_callables.py"],
 [("vector Snell law and total reflection", "optics.py: refractions"), ("Fresnel reflectance, dispersion", "optics.py: fresnel, refr_idx_hartmann"),
  ("splitting and index toggling", "optics_callables.py: RefractiveHomogenous")],
 "online monitor on optics calls and traces against scalar Snell/Fresnel reference",
 "Sweeps over index pairs and angles including normal, critical and grazing; mixed media in one bundle.")

prop("C13", "Diffuse surfaces scatter by the cosine law to the side of arrival",
 "A diffusely reflecting surface sends each arriving ray off from its hit point in a random unit direction on the side "
 "it came from, distributed around the surface normal there by the cosine law with no preferred azimuth, independent of "
 "the arrival direction, of the other rays and of earlier traces. The ray keeps the energy left after the given "
 "absorptivity and its other properties.",
 ["inputs", "configurations"], "every shape, placement, normal, arrival direction and random draw",
 "One statistical test on one plate; wrong distributions and wrong hemispheres appear only for particular normals or sides.",
 ["optics_callables.py", "sources.py", "spatial_geometry.py"],
 [("diffuse optics", "optics_callables.py: LambertianReflector"), ("cosine-law sampling", "sources.py: pillbox_sunshape_directions"),
  ("rotation to the normal", "spatial_geometry.py: rotation_to_z")],
 "online monitor on each scattered ray plus statistical monitor (moments, azimuth, correlation) with conservative bounds",
 "Per-ray hemisphere/unit/energy checks on every draw; distribution tests pooled per scene with false-alarm odds below 1e-9.")

prop("C14", "Ray bundles keep every property of every ray through all operations",
 "Creating, selecting, inheriting, deleting, adding and concatenating ray bundles yields exactly the specified rays in "
 "the specified order, each with all its own basic and extra properties; properties given explicitly replace inherited "
 "ones and nothing else. The bundles operated on are left unchanged, and later changes to a result never reach them, nor the other "
 "way round.",
 ["inputs", "histories"], "every sequence of operations, selector kind, property set and bundle size, including empty",
 "Tests apply each operation once to small fixed bundles.",
 ["ray_bundle.py"],
 [("property storage and selection", "ray_bundle.py: RayBundle._create_property, inherit"),
  ("joining", "ray_bundle.py: RayBundle.__add__, concatenate_rays, delete_rays, empty_bund")],
 "state-machine monitor: random operation histories against a plain-list shadow model",
 "Histories over all operations and selector kinds, bundles of 0..n rays with extra vector and scalar properties.")

prop("C15", "Extra per-ray properties travel with the ray and its descendants",
 "Any extra per-ray property given to the source rays is found, at every later level of the trace, on each descendant "
 "with the value of the source ray it descends from, whatever surfaces, branchings, deletions and orderings happened on "
 "the way. The same holds for the refractive index wherever no refraction changes it.",
 ["inputs", "configurations", "histories"], "every scene and set of extra properties (scalars, vectors, integers)",
 "No test carries an extra property through more than one interaction.",
 ["ray_bundle.py", "optics_callables.py", "tracer_engine.py"],
 [("inheritance in optics", "optics_callables.py: all optics callables"), ("joining of outgoing bundles", "ray_bundle.py: concatenate_rays; tracer_engine.py: TracerEngine.ray_tracer")],
 "trace monitor: tags planted on source rays followed along recorded ancestry",
 "Scalar, vector and integer tags; checked on every recorded ray of every level.")

prop("C16", "Receivers account for every hit with its energy and place, once",
 "A receiver's account lists, for all traces since it was created or last reset, every ray that met the surface carrying "
 "it, exactly once, with the energy absorbed from that ray and the point where it met the surface, in matching order. "
 "The account does not change the light that goes on, reading it gives arrays of the caller's own, and resetting it empties it.",
 ["inputs", "histories", "configurations"], "every sequence of traces and resets, receivers on one or more surfaces",
 "Tests use one receiver and one trace.",
 ["optics_callables.py", "models/homogenized_local_receiver.py", "models/one_sided_mirror.py"],
 [("accounting", "optics_callables.py: AbsorptionAccountant, ReflectiveReceiver, LambertianReceiver")],
 "ledger monitor: hits booked independently from the recorded trace compared with the receiver's account",
 "Multi-trace histories with resets, shared accountants, zero-energy rays, empty accounts.")

prop("C17", "Sources emit the stated number, place, spread and energy of rays",
 "A disk source emits the requested number of unit-direction rays starting on its disk, evenly spread over its area, at "
 "angles within the given range of its direction with a pillbox sunshape, and if a flux is given the equal ray energies "
 "add up to flux times the disk's area. A square source emits equally spaced parallel rays on a square grid normal to its "
 "direction, one start point per direction, reaching the given width to either side of its centre and covering at least the "
 "requested number.",
 ["inputs", "configurations"], "every count, centre, direction, size, angular range and flux, all random draws",
 "Tests check one direction and loose averages.",
 ["sources.py", "spatial_geometry.py"],
 [("disk and pillbox sampling", "sources.py: solar_disk_bundle, pillbox_sunshape_directions"), ("grid", "sources.py: square_bundle"),
  ("orientation", "spatial_geometry.py: rotation_to_z")],
 "generator monitor: hard bounds on every ray plus conservative distribution statistics",
 "All directions including the axes, ranges from 0 to a right angle; distribution tests with false-alarm odds below 1e-9.")

prop("C18", "Boundary volumes contain exactly the points of the placed shape",
 "A sphere, cylinder or half-space boundary reports a point as inside exactly when it lies in the shape as placed by "
 "its own and its containers' placements, for any number of points. The rectangle a sphere reports for a plane contains "
 "the whole intersection of sphere and plane, tightly.",
 ["inputs", "configurations"], "every boundary, placement and set of points",
 "Tests place boundaries at one spot.",
 ["boundary_shape.py", "object.py", "sphere_surface.py"],
 [("inclusion", "boundary_shape.py: BoundarySphere, BoundaryCylinder, BoundaryPlane in_bounds"), ("rectangle", "boundary_shape.py: BoundarySphere.bounding_rect_for_plane")],
 "reference-model monitor on inclusion queries after random placements",
 "Random placements through objects and assemblies; points at all distances from the border except within rounding of it.")

prop("C19", "Rotation and transform helpers build proper right-handed placements",
 "Every rotation helper returns an orthonormal matrix of determinant one that turns by the given angle about the given "
 "axis in the right-hand sense, and composes with translation as stated. The frame built for a given direction has that "
 "direction as its Z axis and its X axis in the original XY plane, for one direction or many at a time, including "
 "directions along the Z axis.",
 ["inputs"], "every axis, angle, direction and number of directions",
 "Tests use a few multiples of 45 degrees.",
 ["spatial_geometry.py"],
 [("rotations", "spatial_geometry.py: general_axis_rotation, rotx, roty, rotz, rotation_to_z"), ("transforms", "spatial_geometry.py: generate_transform, translate")],
 "reference-model monitor on helper results (Rodrigues formula, orthonormality)",
 "Random and degenerate axes, angles over several turns, batches of directions with zeros mixed in.")

prop("C20", "A spherical lens is a closed refracting body that focuses where it says",
 "A lens built from a diameter, thickness, two radii (of either sign or planar) and an index has its two faces the given "
 "thickness apart with the given curvatures, is closed at its rim, and reports the focal length of the thick-lens "
 "equation; light parallel and close to its axis converges at that distance from its origin. Light inside it carries the "
 "lens's index until it leaves, whatever its placement.",
 ["inputs", "configurations"], "every valid lens prescription, placement and arriving ray",
 "Tests use two lens shapes.",
 ["models/spherical_lens.py", "sphere_surface.py", "boundary_shape.py", "cylinder.py"],
 [("construction", "models/spherical_lens.py: SphericalLens.__init__"), ("cut faces", "sphere_surface.py: CutSphereGM")],
 "trace monitor against a reference lens built from the prescription; paraxial focus monitor",
 "Random prescriptions of all sign combinations; every bounce compared with the reference body, paraxial crossings with the focal length.")

prop("C21", "Heliostats keep their places and send the sun's centre ray to the target",
 "After aiming at a sun position, every heliostat stays at its given position and is turned so that light from the sun's "
 "centre striking the mirror's centre is reflected to the aim point above the origin, however often and in whatever order "
 "it was aimed before or the aim height was changed. The sun vector is a unit vector at the given angle from the zenith, "
 "a staggered layout places heliostats on the stated rings within the stated limits, alternately shifted by half the "
 "spacing, and new heliostats face down.",
 ["inputs", "histories"], "every field layout, sun position, aim height and aiming history",
 "The test for aiming checks one field and one sun.",
 ["models/heliostat_field.py", "models/one_sided_mirror.py"],
 [("aiming", "models/heliostat_field.py: HeliostatField.aim_to_sun"), ("sun vector and layout", "models/heliostat_field.py: solar_vector, radial_stagger")],
 "trace monitor: centre rays traced from the sun, plus shadow model over aiming histories",
 "Random fields, including integer positions and the origin's neighbourhood; aiming histories with changed aim heights.")

prop("C22", "A homogenizer guides light by its four inward mirrors only",
 "A rectangular homogenizer has four mirrors standing on the edges of the stated rectangle up to the stated height, "
 "reflective inwards with the stated efficiency and opaque outwards. Light entering its mouth leaves only through the two "
 "open ends with the energy left after each reflection, exactly as if unfolded by mirror images.",
 ["inputs", "configurations"], "every rectangle, height, efficiency, placement and entering ray",
 "Tests trace a few rays through one square homogenizer.",
 ["models/homogenizer.py", "models/one_sided_mirror.py", "assembly.py"],
 [("walls", "models/homogenizer.py: rect_homogenizer"), ("one-sided walls", "models/one_sided_mirror.py: rect_one_sided_mirror")],
 "trace monitor against a mirror-image unfolding reference",
 "Random rectangles, placements and rays from inside, outside and through the walls.")

prop("C23", "A triangulated surface is hit exactly where its triangles are",
 "An object made of triangles is met by a ray exactly where the ray first crosses one of the triangles given by the "
 "vertices and face indices, with the crossed triangle's normal, for any placement; degenerate triangles are skipped "
 "without disturbing the others. A closed mesh is not crossed by a ray without a hit.",
 ["inputs", "configurations"], "every vertex list, face list (including degenerate faces) and placement",
 "Tests use one pyramid.",
 ["models/triangulated_surface.py", "triangular_face.py", "flat_surface.py"],
 [("face placement", "models/triangulated_surface.py: TriangulatedSurface.__init__"), ("face trimming", "triangular_face.py: TriangularFace.find_intersections")],
 "trace monitor against a scalar ray/triangle reference on the original vertices",
 "Random meshes (soups, closed hulls, slivers, degenerate faces), random placements.")

prop("C24", "Dish concentrators collect, focus and map light as dimensioned",
 "A dish concentrator reflects light parallel to its axis that strikes the dish through the dish's focal point, guides it "
 "to the receiver placed at the stated distance with the stated side lengths, with all losses as stated, and its standard "
 "dimensions follow the stated design rules. The energy map of the receiver adds up, bin by bin, to the energy absorbed "
 "from the rays that hit it, wherever the whole dish is placed.",
 ["inputs", "configurations", "histories"], "every set of dish dimensions, placement, bundle and trace history",
 "Tests check one dish with on-axis rays.",
 ["models/tau_minidish.py", "models/PETAL_dish.py", "models/homogenized_local_receiver.py", "models/homogenizer.py", "models/one_sided_mirror.py", "paraboloid.py"],
 [("assembly of dish, homogenizer and receiver", "models/homogenized_local_receiver.py: HomogenizedLocalReceiver"), ("energy map", "models/homogenized_local_receiver.py: HomogenizedLocalReceiver.histogram_hits"),
  ("dimensions", "models/tau_minidish.py: standard_minidish_measures, MiniDish; models/PETAL_dish.py: PETAL")],
 "trace monitor against a reference concentrator; conservation monitor on the energy map",
 "Random dimensions and placements, both dish kinds; every bounce compared with the reference model, maps recomputed from the trace.")

prop("C25", "Meshes drawn for a surface lie on the surface that is traced",
 "Every point of the mesh a surface offers for display lies on the surface as traced, in its current world placement and "
 "within its outline (give or take half a mesh step), and the mesh covers the surface's whole extent, to within a mesh step, "
 "with no fewer points than the requested resolution.",
 ["inputs", "configurations"], "every meshable shape, size, resolution and placement",
 "Tests check the mesh of a few shapes at one resolution.",
 ["surface.py", "flat_surface.py", "sphere_surface.py", "paraboloid.py", "cylinder.py", "triangular_face.py"],
 [("world mesh", "surface.py: Surface.mesh"), ("local meshes", "flat_surface.py, sphere_surface.py, paraboloid.py, cylinder.py, triangular_face.py: mesh")],
 "monitor: each mesh point tested against the implicit equation and outline, coverage by nearest mesh point",
 "All meshable shapes over sizes, resolutions and placements; the finite cylinder's mesh may end half a mesh step past its rim, disks and dishes a hundredth of one.")

prop("C26", "Tracing is repeatable, leaves its inputs alone and follows the protocol",
 "Tracing the same bundle through the same scene again gives the same result (up to the random draws of diffuse "
 "surfaces), changes neither the source rays nor the scene, and leaves earlier records of traces untouched, even after a "
 "trace that failed half-way; a trace goes by the scene as it stands when it starts, whatever was traced before its members "
 "were last moved or added. In every bounce the engine asks each surface in the order register, select, outgoing, done, "
 "asks for outgoing rays only for rays that met it, and finishes with every surface released.",
 ["histories", "fault_sequences", "configurations"], "every sequence of traces on a scene, including ones aborted by a fault at any protocol step",
 "Tests trace once per fixture; state left behind by a surface shows only in the next trace.",
 ["tracer_engine.py", "surface.py", "geometry_manager.py", "quadric.py", "flat_surface.py"],
 [("trace loop", "tracer_engine.py: TracerEngine.ray_tracer"), ("state kept and released by surfaces", "surface.py: Surface.register_incoming, select_rays, done; quadric.py, flat_surface.py: done")],
 "online protocol automaton on every surface, repeated-run comparison, fault injection at protocol steps",
 "Traces repeated, aborted at a random protocol step, interleaved with another scene's, or following edits of the scene; every record compared with the first run or with the reference.")

prop("C27", "Objects' ownership and relevance decisions are honoured exactly",
 "When an object claims a ray it emitted, in the next bounce only that object's surfaces are considered for that ray, and "
 "when it declares some of its surfaces irrelevant to a ray, those are not considered in the next bounce and all other "
 "surfaces are; both last one bounce. The decision is asked for, and applied to, exactly the rays that continue from that "
 "object's surface, in any nesting, object order and mix of policies.",
 ["inputs", "configurations", "histories"], "every assignment of ownership and relevance decisions to objects, surfaces and rays",
 "Only the one-sided mirror uses the mechanism in tests, with a constant answer.",
 ["tracer_engine.py", "object.py", "models/one_sided_mirror.py"],
 [("bookkeeping of ownership and relevance", "tracer_engine.py: TracerEngine.ray_tracer, intersect_ray"), ("policies", "object.py: AssembledObject.own_rays, surfaces_for_next_iteration")],
 "trace monitor with random per-ray policies, each bounce checked against the restricted reference nearest hit",
 "Policies that depend on the ray, the emitting surface and the object in multi-object scenes; each decision call is audited too.")

prop("C28", "The 3D view draws each ray's path as traced",
 "The 3D view draws, for every shown ray of a trace, one segment from its start to the start of each of its descendants, "
 "or of the given escape length along its direction if it has none; zero-energy rays and rays the caller filters out are "
 "not drawn, and nothing else is drawn. The surfaces of the scene are shown by their own meshes in their current "
 "placement.",
 ["inputs", "configurations", "histories"], "every trace record, filter and sequence of scene updates",
 "No test covers the view.",
 ["mayavi_ui/scene_view.py", "trace_tree.py", "surface.py"],
 [("segments", "mayavi_ui/scene_view.py: show_rays"), ("surfaces", "mayavi_ui/scene_view.py: TracerScene")],
 "monitor on a recording stand-in for the plotting library: drawn segments against the trace record",
 "Random traces and filters; the multiset of drawn segments is compared with the one derived from the record.")

prop("C29", "The assembly tree view mirrors the assembly and its captions",
 "The tree view shows exactly the assembly's structure - subassemblies, objects and surfaces, each under its container "
 "and in order - with each item's caption or a default number, and editing a caption in the view changes the caption of "
 "exactly the corresponding item. Showing another assembly replaces the previous one.",
 ["inputs", "histories"], "every nesting of assemblies and sequence of caption edits and replacements",
 "The only test needs a GUI toolkit that is not installed.",
 ["qt/assembly_tree.py", "assembly.py", "object.py"],
 [("population", "qt/assembly_tree.py: AssemblyTree.set_assembly, _add_subassembly, _add_objects"), ("captions", "qt/assembly_tree.py: AssemblyTreeItem.update_caption, get_tag, set_tag")],
 "monitor on a recording stand-in for the GUI toolkit: shown tree against the assembly",
 "Random assemblies and edit histories on a minimal fake of the tree widget.")

prop("C30", "Impossible sizes and misshapen placements are refused, changing nothing",
 "Plates, disks and spheres of zero or negative size, locations and rotations that are not a 3-vector and a 3 by 3 matrix, "
 "triangle meshes of fewer than two points per edge, and surfaces that report a negative distance to a ray are refused with a "
 "ValueError, and shapes that define no geometry or volume of their own with a TypeError, whether on building or later. The thing that refused keeps the size and "
 "placement it had, in its own reading and in what rays and points see of it, and a trace after the refusal goes as one before it. "
 "Every positive size and well-formed placement is accepted.",
 ["inputs", "histories"], "every size, shape of placement array and sequence of refused and accepted changes",
 "Tests refuse three negative sizes on building; which shapes broadcast silently, and what a refused change leaves behind, they do not see.",
 ["has_frame.py", "flat_surface.py", "sphere_surface.py", "triangular_face.py", "tracer_engine.py", "geometry_manager.py", "boundary_shape.py"],
 [("placements", "has_frame.py: HasFrame.set_location, set_rotation"), ("sizes", "flat_surface.py: RectPlateGM, RoundPlateGM; sphere_surface.py: SphericalGM.set_radius"),
  ("distances", "tracer_engine.py: TracerEngine.intersect_ray")],
 "monitor of refusals: exception, reading and effect on rays observed before and after each refused change",
 "Random histories of refused and accepted placements and sizes on things in use; faulty surfaces put into random scenes.")

prop("C31", "Optics and shapes supplied by the user take part like the built-in ones",
 "A surface may carry any optics callable written to the documented signature - one that sends on any number of rays per "
 "arriving ray, none for some or for all, in any order, with its own energies and changed or added properties - and any "
 "geometry manager that answers the documented protocol. A trace then follows exactly the rays such optics send on, attaches each to the parent they name, "
 "applies the energy threshold, bounce limit and first-hit rule to them, and hands each such optics exactly the rays that met its surface.",
 ["inputs", "configurations", "histories"], "every optics callable and geometry manager that keeps to the protocol, alone or mixed with the built-in ones",
 "Tests only use the optics and shapes that come with the package, which send on one or two rays in a fixed order.",
 ["tracer_engine.py", "surface.py", "ray_bundle.py", "trace_tree.py", "geometry_manager.py"],
 [("handling of outgoing rays", "tracer_engine.py: TracerEngine.ray_tracer"), ("delegation", "surface.py: Surface.register_incoming, select_rays, get_outgoing"),
  ("bundles", "ray_bundle.py: RayBundle.inherit, concatenate_rays")],
 "trace monitor with scripted optics and geometry: every level predicted from the script and the reference geometry",
 "Optics whose outgoing rays are a fixed function of the arriving ray's key are mixed with built-in ones; shapes implemented anew from the reference geometry stand among built-in ones.")

prop("C32", "Separate scenes worked on at the same time do not affect each other",
 "Scenes, bundles, shapes and models that share no part may be built, moved, traced, drawn and asked in any interleaving - from "
 "several threads switching between any two lines of the package's code, or one within a step of another's trace - and each gives exactly what it "
 "gives alone. The same holds for the helpers for rotations, transforms, reflection and refraction.",
 ["schedules", "configurations"], "every interleaving, between lines of code, of work on separate scenes",
 "Tests run one thing at a time; work space shared by all instances is invisible until two are under way together.",
 ["tracer_engine.py", "ray_bundle.py", "surface.py", "quadric.py", "flat_surface.py", "optics.py", "optics_callables.py", "spatial_geometry.py", "has_frame.py", "assembly.py", "models"],
 [("trace state", "tracer_engine.py: TracerEngine.ray_tracer, intersect_ray"), ("geometry state", "quadric.py: QuadricGM; flat_surface.py: FlatGeometryManager, FiniteFlatGM"),
  ("bundles", "ray_bundle.py: RayBundle.inherit, concatenate_rays"), ("helpers", "spatial_geometry.py, optics.py")],
 "controlled scheduler switching threads at lines of the package's code, results compared with the same work done alone",
 "Two to four jobs under randomly chosen schedules (about 230,000 switches in a quick run), the same small job against itself, and whole jobs run inside the steps of a trace.")

NOT_CLAIMED = []      # (id, reason)

def main():
    claimed = set(os.environ.get("CLAIM", "").split()) or None
    done = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("c") and f.endswith(".py")}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in done:
            checks.append(dict(property=p["id"], quick_cmd="bash bin/check.sh %s quick" % p["id"],
                thorough_cmd="bash bin/check.sh %s thorough" % p["id"],
                technique=p["technique"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na,
        notes="No hooks in /repo: monitors wrap the public protocol from /verif. Every check translates /repo/tracer with the sandbox's own translator into a scratch folder and runs it under PyPy. Defects found and repaired are listed in KNOWN_FINDINGS.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    main()
