"""Writes properties.jsonl (kept as code so the statements stay reviewable)."""
import json, pathlib
W, CORE, TEETH, MATH, B123 = "src/gggears/gggears_wrapper.py", "src/gggears/gggears_core.py", "src/gggears/gearteeth.py", "src/gggears/gearmath.py", "src/gggears/gggears_build123d.py"
CRV, FG, BASE, CONV, DEFS = "src/gggears/curve.py", "src/gggears/function_generators.py", "src/gggears/gggears_base_classes.py", "src/gggears/gggears_convert.py", "src/gggears/defs.py"
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


T1 = "The repository meshes a dozen pairs against a 52-tooth gear, always to the right of it, at one rolled phase and one slice; "

prop("C01", "Meshed external involute gears touch on both flanks and never cut each other",
     "After one external involute gear is meshed to another of the same module and pressure angle, both lie in one plane at the exact zero-backlash operating centre distance given by their tooth thicknesses (profile shifts included). Rolling the two together by the tooth ratio, the tooth profiles never overlap at any phase, and with no backlash requested either wheel, held against the other, has contact on both flanks. This holds for every tooth count, module, pressure angle, profile shift, addendum and dedendum, with or without undercut, for any pose of the fixed gear and any in-plane target direction, unless the design itself has no clearance or involute interference.",
     ["inputs", "configurations"], "all compatible external pairs x all placements x all roll phases",
     T1 + "the interference of two profiles depends on all tooth parameters and on the phase.",
     [W, MATH, TEETH, CORE], [("meshing distance and angle", f"{W}: InvoluteGear.mesh_to; {MATH}: calc_involute_mesh_distance, calc_mesh_angle"), ("tooth profile", f"{TEETH}: InvoluteTooth, InvoluteUndercutTooth; {CORE}: trimming")])
prop("C02", "Ring gears mesh with pinions on either side without interference",
     "Meshing a pinion into an internal ring gear, or a ring around a pinion, places the moved gear in the requested direction from the fixed one at the exact zero-backlash internal centre distance, with the pinion's teeth in the ring's gaps. Rolling the pair by the tooth ratio (same sense) never overlaps the solid material of the two, and with no backlash contact exists on both flanks at every phase. Helical pairs with equal helix angles keep parallel axes and behave the same at every height.",
     ["inputs", "configurations"], "all pinion/ring combinations without design interference, both call directions, all directions and phases",
     "Tests contain a single ring doctest that only checks that parts are valid; no test meshes a ring to a pinion.",
     [W, MATH, TEETH], [("internal mesh distance", f"{MATH}: calc_involute_mesh_distance(inside_ring)"), ("internal mesh angle", f"{MATH}: calc_mesh_angle"), ("ring constructors", f"{W}: SpurRingGear, HelicalRingGear")])
prop("C03", "Requested backlash is the exact play of the mesh, and bias picks its side",
     "Meshing with a requested backlash moves the gears apart so that the fixed wheel leaves the moved wheel exactly backlash / base radius of angular play, for external and internal pairs. A bias of +1 turns the moved wheel in its positive direction until it just touches, -1 in the negative direction until it just touches, 0 leaves it centred and intermediate values interpolate linearly. The backlash is an absolute length, so it does not change with module, pose, direction or helix angle.",
     ["inputs", "configurations"], "all pairs x backlash values x bias in [-1,1] x placements",
     "No test passes backlash or bias to meshing.",
     [W, MATH], [("mesh_to backlash/bias", f"{W}: InvoluteGear.mesh_to, HelicalGear.mesh_to"), ("distance with backlash", f"{MATH}: calc_involute_mesh_distance")])
prop("C04", "Meshing depends only on the fixed gear's placement and the direction",
     "Meshing places a gear relative to the fixed gear only: moving the fixed gear by any rigid motion (and rotating the direction with it) moves the result by the same motion, whatever pose the moved gear had before, and repeating the call changes nothing. The fixed gear, its tooth shapes and the direction argument are never altered, the shape of the moved gear does not change, and for involute gears the length of the direction is irrelevant. This holds for spur, helical, ring, bevel and cycloid gears and for chains of several meshed gears.",
     ["inputs", "histories"], "all gear families x rigid motions x prior placements x repeated and chained mesh calls",
     "Tests never move or rotate the fixed gear before meshing; equivariance is a relation between executions.",
     [W, MATH, BASE], [("mesh_to", f"{W}: InvoluteGear/HelicalGear/CycloidGear.mesh_to"), ("bevel placement", f"{MATH}: calc_bevel_gear_placement_vector, calc_mesh_orientation")])
prop("C05", "Meshed bevel gears share their apex and roll on their cones without interference",
     "After a bevel gear is meshed to another, the two cone apexes coincide, the axes enclose the sum of the two half cone angles (their difference for an internal pair), the moved gear lies on the requested side, and the pitch cones touch along one line. Rolling the pair by the tooth ratio about their axes, the tooth sections on the common sphere do not overlap beyond the design clearance at any phase. This holds for all tooth counts, pressure angles, axis angles, helix (opposite) angles, modules and poses of the fixed gear.",
     ["inputs", "configurations"], "all bevel pairs with compatible cones x poses x directions x roll phases",
     "Tests build one family of bevel gears and test plane curves with one direction.",
     [W, MATH, TEETH, BASE], [("bevel placement", f"{MATH}: calc_bevel_gear_placement_vector, calc_mesh_orientation, calc_mesh_angle"), ("apex", f"{BASE}: ConicData")])
prop("C06", "Helical pairs mesh in the normal system with correctly inclined shafts",
     "Meshing helical gears of opposite hand gives parallel axes and interference-free tooth contact in every common transverse section; different helix angles tilt the moved shaft about the centre line by exactly the sum of both helix angles so that the tooth traces are parallel at the pitch point. Module, pressure angle, addendum, dedendum and profile shift are in the normal section, so the transverse pitch radius is teeth x module / (2 cos(helix)). Herringbone pairs are interference-free in all sections.",
     ["inputs", "configurations"], "all helix angle pairs, tooth counts, normal modules, heights, poses and sections",
     "Tests mesh helix +-0.3 in the z=0 plane only; crossed axes are never observed.",
     [W], [("HelicalGear", f"{W}: HelicalGear.__init__, mesh_to"), ("twist", f"{W}: InvoluteGear.calc_params angle_func")])
prop("C07", "Cycloid gears with adapted radii mesh without interference",
     "After adapting the rolling radii of two cycloid gears, the generating circle outside one gear's pitch circle equals the one inside the other's (for rings accordingly), both gears keep their placement and all their other parameters. Meshing places them at the sum (ring: difference) of the pitch radii in the given unit direction with a tooth opposite a gap, and rolling the pair by the tooth ratio never overlaps the profiles and leaves no play on the working flanks at the pitch point. Cycloid bevel pairs share their apex and enclose the sum of the half cone angles.",
     ["inputs", "histories", "configurations"], "all cycloid pairs, ring pairs, coefficients, poses, and orders of adapt/mesh/move",
     "Tests contain one doctest pair and check only validity of the solids.",
     [W, TEETH, FG], [("adapt_cycloid_radii, mesh_to", f"{W}: CycloidGear"), ("cycloid flank", f"{TEETH}: CycloidTooth")])
prop("C08", "Racks have the standard rack form and mesh with gears in any direction",
     "A rack's solid has the requested number of teeth at pitch pi x module, straight flanks at the pressure angle, tooth thickness half the pitch (less backlash) at the pitch line, tips and roots at addendum and dedendum, the requested height, and for helical racks the helix inclination (mirrored about mid-height if herringbone). Meshing places its pitch line tangent to the pitch circle plus profile shift in the requested in-plane direction of the gear's pose, tooth opposite gap, shifted along itself by the requested number of pitches. For whole numbers of pitches, sliding the rack while turning the gear never overlaps their profiles.",
     ["inputs", "configurations"], "all racks and gears, poses, directions, offsets and roll phases",
     "Two doctests check that a rack solid is valid.",
     [W], [("InvoluteRack, HelicalRack", f"{W}: _build_ref_tooth_face, build_part, mesh_to")])
prop("C09", "Cylindrical flanks are exact involutes with the nominal tooth thickness",
     "In every section the working flank of an involute gear is the involute of the base circle (pitch radius x cos(pressure angle)) and the tooth thickness on the pitch circle is the standard half pitch plus twice profile shift x tan(pressure angle) less twice the backlash coefficient. Teeth are mirror symmetric and repeat exactly with the pitch angle. The reported base radius and base angle agree with the generated flank.",
     ["inputs", "configurations"], "all tooth counts, pressure angles, shifts, coefficients, modules, heights",
     "Tests never compare a generated point with the involute equation.",
     [TEETH, FG, W], [("flank", f"{TEETH}: InvoluteTooth.generate_involute_curve; {FG}: involute_circle"), ("thickness", f"{W}: calc_params")])
prop("C10", "Tip, root and rim radii are what the parameters say and what is reported",
     "The tip circle has radius pitch radius + (addendum + shift) x module unless the teeth would become pointed first, in which case the tip is cut the truncation amount below the point; the root circle has pitch radius - (dedendum - shift) x module; the rim of a ring lies the requested ring coefficient outside the pitch circle. No boundary point lies outside tip or root circle, and the reported addendum, dedendum, pitch, outside radii and reference circles equal the measured ones for every pose, section and family.",
     ["inputs", "configurations"], "all parameters of all gear families, all sections",
     "Tests only use sizes in a volume inequality.",
     [CORE, W, BASE], [("limits and tip truncation", f"{CORE}: apply_tip_reduction, GearRefProfile generation"), ("reported radii", f"{W}: GearInfoMixin.radii_data_gen")])
prop("C11", "Every gear boundary is one closed, simple, N-fold symmetric curve",
     "For every gear in the sensible parameter domain and every section, the pieces of one pitch join end to end, the whole boundary is closed, does not cross itself, winds once around the axis and repeats N times. The continuous boundary function, the boundary chain and the wire describe the same curve in the same place.",
     ["inputs", "configurations"], "all gear families and parameters, sections and poses",
     "A handful of parameter sets is built; a joint gap or crossing appears only in parts of the parameter space.",
     [CORE, B123, TEETH], [("profile assembly", f"{CORE}: generate_reference_profile, generate_boundary_chain, generate_boundary"), ("wire", f"{W}: build_boundary_wire; {CONV}")])
prop("C12", "Fillets are tangent arcs of the requested radius",
     "When a tip or root fillet radius is requested (and fits), the corner between flank and tip or root circle is replaced by an arc of exactly that radius that is tangent to both, lies on the correct side (tip rounded off, root filled), and the rest of the flank and circle stay where they were. A zero radius leaves the sharp corner. When a radius finds no room on the root or tip land, the pieces of the profile still join end to end, and on a cylindrical gear without undercut one arc of that radius, centred on the gap (tooth) and touching both flanks, takes the place of the land.",
     ["inputs"], "all fillet radii x tooth parameters for cylindrical and bevel gears",
     "Tests build a few fillets and check solid validity, never radius or tangency.",
     [CORE, CRV], [("fillets", f"{CORE}: apply_fillet; {CRV}: fillet_curve, calc_tangent_arc")])
prop("C13", "Undercut removes exactly what the generating rack sweeps",
     "With undercut enabled, the flank of an external gear never reaches into the area swept by the generating rack, the involute above the limit is untouched, and where the base circle lies outside the root circle the flank follows the envelope of the rack all the way down. The lowest point sits on the root circle and the undercut meets the involute at their true intersection. When the tooth count and shift give no undercut, the involute is preserved down to the tangency limit.",
     ["inputs"], "tooth counts, pressure angles, dedendum and profile shifts around and below the undercut limit",
     "No test compares the undercut with the rack envelope.",
     [TEETH, FG], [("undercut", f"{TEETH}: InvoluteUndercutTooth")])
prop("C14", "Solids are valid and agree with the 2D profiles they are built from",
     "Building any gear gives exactly one valid closed solid; for cylindrical gears the end faces have the area of the exact profile and the volume is the integral of the profile area over the height. Points slightly inside the profile lie in the solid and points slightly outside do not, at all heights, for straight, helical, herringbone, crowned, bevel and ring gears. Faces repeat with the number of teeth.",
     ["inputs", "configurations"], "all families, sizes, modules, twists",
     "Tests check validity and a loose volume bound for ~20 gears.",
     [B123, CONV, W], [("solid builder", f"{B123}: GearBuilder; {CONV}: curve and surface conversion")])
prop("C15", "Parts, wires, reference points and locations are all placed by the same pose",
     "For any position, orientation (including those singular for Euler angles) and angle, the built solid, the boundary wire, the boundary curves, the centre and face locations and reference circles all sit where the gear's pose puts them: rotate about the axis by the angle, orient, translate. Moving the gear after building and updating the part gives the same solid as building it at the new pose. Resetting the location returns all of them to the untransformed place.",
     ["inputs", "histories"], "all poses x gear families x move/build/update orders",
     "Tests never orient a gear; an error in one output path leaves the others consistent.",
     [W, B123, CONV, BASE], [("transform to solid", f"{B123}: apply_transform_part; {CONV}: transform2Location, np2v"), ("update_part", f"{W}: InvoluteGear.update_part")])
prop("C16", "Crowning and backlash thin the teeth by exactly the documented amount",
     "Crowning of c moves each flank at the pitch circle into the material by c/1000 (transverse) modules at the bottom and the top of the gear, not at all at mid height and quadratically in between, for every module, height and z anchor, making the teeth of external and ring gears thinner. The backlash coefficient thins each flank by that many modules at every height. Neither changes tooth spacing or symmetry, the root circle, or the tip circle of teeth that are not pointed.",
     ["inputs"], "all crowning/backlash values x heights x modules x anchors x families",
     "No test measures thickness versus height.",
     [W], [("crowning_func", f"{W}: InvoluteGear.calc_params, CycloidGear.calc_params")])
prop("C17", "Gears scale with the module",
     "Two gears that differ only in module (with height and absolute lengths scaled along) are geometrically similar: every boundary point, radius, reference location, mesh distance, reference height and solid volume scales by the module ratio (its square or cube for areas and volumes). Angles, tooth phase and mesh orientation do not change.",
     ["inputs"], "all families x modules from 0.05 to 50",
     "Tests use a single module almost everywhere.",
     [W, CORE], [("module handling", f"{W}: calc_params; {CORE}: Gear")])
prop("C18", "Axial extent, anchor and face positions follow height and z anchor",
     "A gear of height h with anchor a extends from -a x h to (1-a) x h along its axis (bevel: along the pitch cone, shrinking towards the apex), the reported height, bottom, middle and top centre points and face locations agree with that and with the solid's bounding box. A proportion of the height maps linearly from bottom to top, also for moved and herringbone gears. The reference section with the nominal module lies at the gear's centre.",
     ["inputs", "configurations"], "all heights, anchors, cone angles, modules, poses",
     "Anchors appear in two tests with one value.",
     [W, CORE], [("z_vals and centres", f"{W}: GearInfoMixin, calc_params")])
prop("C19", "Queries and builds never change a gear and are repeatable",
     "Reading any property, generating curves, wires, reference circles or lines of action, and building parts never changes a gear's pose, parameters, sections or later results, in any order and any number of repetitions. The same construction always gives identical numbers. Curves, circles, lines and points computed for the caller are the caller's own: changing them does not change the gear (the live pose attributes excepted).",
     ["histories"], "all sequences of read-only operations on all gear families",
     "Tests call each method once on a fresh object.",
     [W, CORE, B123], [("query methods", f"{W}: GearInfoMixin; {CORE}: Gear.curve_gen_at_z, boundary generation")])
prop("C20", "Gears are isolated from each other, from copies and from failed calls",
     "Moving, meshing, building or resetting one gear never changes any other gear, any copy or original, the library's shared constants, or arrays the caller passed in. A copy starts identical and stays fully independent, also when parameters of either side are edited. A build or query that fails part-way leaves the gear unchanged and usable, and a failed mesh leaves the other gear untouched (adapting cycloid radii changes both gears by design).",
     ["histories", "fault_sequences"], "all interleavings of operations on several live gears, with faults injected into builds",
     "Tests use each gear in isolation; aliasing shows only across objects.",
     [W, BASE, DEFS, CORE], [("copies and defaults", f"{W}: copy, constructors; {BASE}: GearTransform; {DEFS}: constants")])
prop("C21", "Transforms compose, invert and act as similarity maps",
     "Applying a transform is rotate by angle, orient, scale and translate; the product of two transforms of the same kind acts as applying the right one first, the inverse undoes it on both sides, and the identity changes nothing. Lengths scale exactly by the scale and angles are kept. Single points and arrays of points give the same result, operations on transforms never modify their operands, and for gear transforms the rotation progress is carried along.",
     ["inputs"], "all transforms (positions, orientations, scales, angles) and points",
     "Transforms are not tested at all.",
     [BASE], [("TransformData, GearTransform", f"{BASE}: apply_transform, __mul__, inverse")])
prop("C22", "Curves are parametrized proportionally to length and report true lengths",
     "For every curve kind (line, arc, involute, cycloid, bezier, NURBS, spherical, chains) the reported length is the arc length of the active part (exact for lines and arcs, the documented chord approximation otherwise), and the parameter 0..1 moves at constant speed along it. Reversing, trimming, cutting and extending keep this, start and end at the right points, and conversion between the native and proportional parameter is inverse in both directions. Arrays of parameters give the same points as single ones, and derivatives agree with the points.",
     ["inputs", "histories"], "all curve kinds x trims/reversals/cuts in any order",
     "Tests evaluate a few lines and arcs.",
     [CRV], [("Curve", f"{CRV}: Curve.__call__, update_lengths, len2t, cut, reverse, derivative")])
prop("C23", "Chains of curves behave like one curve and like a list",
     "A chain's length is the sum of its active members, its points run through the members in order at the right proportional positions, and start, end and joints are the members'. Indexing, insertion, replacement, deletion, reversal, cutting, trimming and filleting act like the same operation on the underlying sequence and geometry, with inactive members ignored. Continuity reports agree with the actual gaps between members.",
     ["inputs", "histories"], "all chains (nested, with inactive members) and sequences of list/geometry operations",
     "Tests cover one chain of three lines.",
     [CRV], [("CurveChain", f"{CRV}: CurveChain")])
prop("C24", "Derived curves follow their source exactly and copies are independent",
     "Rotated, mirrored, scaled, translated or generally transformed curves (by operator or wrapper) pass exactly through the transformed points of their source with the right length, for lines, arcs, involutes, chains and nested combinations. Transforming returns a new curve and leaves the source alone; copies are independent of their original. Arc properties (radius, centre, axis, angle) agree with the points, however the arc was constructed and after transformation.",
     ["inputs", "histories"], "all curve kinds x transformations x nesting",
     "Only the points of two operators are tested.",
     [CRV], [("TransformedCurve, MirroredCurve, RotatedCurve, operators", f"{CRV}")])
prop("C25", "Conversion to CAD edges and NURBS keeps the geometry",
     "Converting any library curve to CAD edges or to NURBS/bezier pieces gives geometry within half a percent of its length of the curve (exact for lines and arcs), with the same ends and joints, for lines, arcs of every angle, circles, involutes, cycloids, trimmed, reversed, transformed and nested curves. Points and vectors converted to CAD types and back are unchanged.",
     ["inputs"], "all curve kinds x trims x transforms (not claimed: one-piece NURBS fits of nearly full circles, edges of trimmed NURBS pieces)",
     "Tests only look at the finished solids of default gears.",
     [CONV, CRV], [("edge conversion", f"{CONV}: curve_to_edges"), ("NURBS conversion", f"{CRV}: convert_curve_nurbezier")])
prop("C26", "Bezier and NURBS evaluation and refitting obey their definitions",
     "Bezier and rational bezier curves equal their Bernstein definition, lie in the hull of their control points for positive weights, start and end at the end control points, and arcs made rational lie exactly on the circle. Splitting and joining NURBS pieces does not move the curve, and refits approximate the target within their tolerance and interpolate the end points. Evaluation is invariant under affine maps of the control points.",
     ["inputs"], "all control polygons, weights and parameters",
     "No test evaluates bezier curves with weights.",
     [CRV, FG], [("bezier functions", f"{FG}: bezier, nurbezier; {CRV}: NurbCurve")])
prop("C27", "Coordinate maps are exact inverses and keep distances where they must",
     "Cartesian to spherical/conic/polar conversions and back return the original point wherever defined, for scalars and arrays alike, with documented angle ranges. The mapping of plane profiles onto the cone sphere keeps radial distances and angles as stated. Rotations and vector helpers keep lengths, handedness and orthogonality, and angle helpers agree with their definition in all quadrants.",
     ["inputs"], "all points, centres, radii, cone angles",
     "Two tests use fixed points.",
     [FG, MATH, DEFS], [("polar/spherical conversion", f"{FG}: xyz_to_spherical, spherical_to_xyz, xyz_to_cylindrical, ..."), ("vector helpers", f"{FG}: normalize_vector, angle_between_vectors, rotate_vector")])
prop("C28", "Design formulas agree with each other and with the gears they describe",
     "The helper formulas (nominal and operating centre distance, cone angles from teeth and axis angle, backlash from distance, involute and its inverse relations) satisfy their defining equations and invert each other. Gears built with the values they return mesh as predicted. Results do not depend on argument order where the relation is symmetric.",
     ["inputs"], "all tooth counts, modules, axis angles, distances",
     "Doctests show single numbers.",
     [MATH], [("gear math", f"{MATH}")])
prop("C29", "Curve searches return true solutions",
     "Intersection, nearest-point and tangent-arc searches return points that lie on the curves and satisfy the defining condition (common point; smallest distance; tangency with the requested radius) whenever a solution near the start exists. They report success truthfully and do not modify the curves they search.",
     ["inputs"], "all curve pairs and start guesses near a solution",
     "One test intersects two circles.",
     [CRV], [("find_curve_intersect, find_curve_nearest_point, fillet arc", f"{CRV}")])
prop("C30", "Generating curves obey their rolling laws",
     "Involutes (planar and spherical, with offsets) unwind without slip from their base circle; epi-, hypo- and octoid/spherical cycloid curves are the exact trace of the rolling element; their values are consistent for scalars and arrays and for both rotation senses. Distance from the base centre, tangent direction and arc relation all satisfy the analytic law. Start angle and offsets shift the curve rigidly or along the law as documented.",
     ["inputs"], "all radii, angles, senses, offsets, parameters",
     "Generating functions are never compared to their equations.",
     [FG], [("generators", f"{FG}: involute_circle, involute_sphere, cycloid_circle, cycloid_cone, octoid, trochoid")])
prop("C31", "Tooth surfaces interpolate the sections they are built from",
     "The lofted tooth surfaces of twisted, crowned and conical gears pass through the exact sections at the reference heights and stay within a small distance of the exact section at every height between (a few thousandths of a module, growing only with the twist and crowning carried by one strip), with bottom and top boundaries coinciding with the exact profile. Adjacent surface patches share their edges. More sampling never makes it worse beyond noise.",
     ["inputs", "configurations"], "all twists, crownings and cones, sampling densities",
     "Tests check validity of solids only.",
     [B123, CORE], [("surface construction", f"{B123}: GearBuilder side surfaces; {CORE}: GearToothNurbBuilder")])
prop("C32", "The line of action is the common tangent of the base circles",
     "For two gears in parallel planes the two lines of action are tangent to both base circles, mirror images about the centre line, cross it at the pitch point (external pairs), and tooth contact of meshed gears happens on them. Their position follows the gears' placement and the section height, for external and internal pairs.",
     ["inputs"], "all pairs, distances, positions, section heights",
     "Never tested.",
     [W], [("LineOfAction", f"{W}: LineOfAction.LOA_gen")])
prop("C33", "Bevel tooth sections lie on the sphere around the apex with correct proportions",
     "Every point of a bevel gear's section lies on the sphere centred at the cone apex through the pitch circle, tip and root circles lie the addendum and dedendum away along that sphere, and pitch-circle tooth thickness is as for the equivalent cylindrical gear. Sections shrink linearly towards the apex so all sections are similar, and the reported apex, spherical radius and cone angles agree. With a vanishing cone angle the shape tends to the cylindrical gear.",
     ["inputs"], "all cone angles, tooth counts, pressure angles, heights",
     "Tests check only solid validity of bevels.",
     [TEETH, FG, CORE, BASE, W], [("octoid teeth", f"{TEETH}: OctoidTooth, OctoidUndercutTooth"), ("conic limits", f"{CORE}")])
prop("C34", "Helix and herringbone twist follow the lead exactly",
     "The section at height z is the base section turned by z x tan(helix angle) / pitch radius (right hand for positive angle), the same for every family with a helix; herringbone gears twist to mid height and back symmetrically, bottom and top sections coinciding. Section shape does not otherwise depend on height, and the twist of the solid agrees, including twists of more than a full turn.",
     ["inputs"], "all helix angles, heights, modules, anchors",
     "Tests look at z=0 only.",
     [W], [("angle_func, herringbone_mod", f"{W}: calc_params, HelicalGear, HelicalRingGear")])
prop("C35", "Any history of operations leaves gears as a simple pose model predicts",
     "After any sequence of moving, turning, meshing, copying, resetting, building, updating and querying several gears, every gear's pose and boundary equal those of a fresh gear of the same parameters put directly at the pose predicted by a simple sequential model. Re-running a mesh later gives the same relative placement. Earlier returned parts and wires do not change.",
     ["histories"], "all operation sequences over several gears",
     "Tests never run sequences longer than mesh-then-build.",
     [W, BASE, B123], [("stateful gear objects", f"{W}: InvoluteGear, CycloidGear")])

prop("C36", "Closed outlines of a tooth and of one pitch are closed and follow the tooth",
     "Every closed outline the library offers around one tooth or one pitch (tooth closed at the root, gap closed at the tip, tooth or pitch closed at the rim circle) is a connected closed loop on the section surface that consists of exactly the tooth's own flanks and lands plus arcs about the axis and radial lines (meridians) at the stated radii. It is free of self crossings, except that a radial line may run along a radial flank, and the outlines of all pitches together fill the section between its boundary and the rim circle. Asking for an outline, in any order and repeatedly, changes neither the tooth nor the answers.",
     ["inputs", "histories"], "all gear families, tooth shapes and section heights, any order of requests",
     "No test reads these outlines except the one used for the solid of a default gear.",
     [CORE], [("extended profile", f"{CORE}: GearRefProfileExtended"), ("closed profile", f"{CORE}: generate_profile_closed")])
prop("C37", "Gears assembled from building blocks behave like the ready-made ones",
     "A gear assembled from tooth data, a tooth shape and a cone (or a path for one tooth) has in every section the same shape as the ready-made gear with the same data, reports its true pitch radius, apex and sphere, and follows its path exactly. Meshing two of them in an in-plane direction of the fixed gear puts pitch circles (cones) in contact, tooth opposite gap (pinion tooth in ring gap), on the requested side, whatever the module and pose, without altering the fixed gear. Fractional, negative and partial tooth numbers give the size of the full number, inside teeth, and exactly the remaining teeth at the full pitch; exchanging the tooth shape gives what building with it gives, and copies are independent.",
     ["inputs", "configurations"], "all tooth data, shapes, cones, paths, modules, poses and directions",
     "Tests only use ready-made gears at the origin; partial and fractional gears are never built.",
     [CORE, BASE, MATH], [("core gear", f"{CORE}: Gear, gear_recipe_from_curve, default_gear_recipe"), ("tooth data", f"{BASE}: GearToothParam"), ("boundary", f"{CORE}: generate_boundary, generate_boundary_chain")])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(P))
