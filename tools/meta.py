#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; no check reads this)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O, S, GO, G = "optics3d.py", "Shapes/shapes.py", "general_optics.py", "general.py"
RUN = ("Ray.run: nearest-hit loop, distance and interaction budgets", O + " Ray.run")

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms
P = [
("C01", "A ray's recorded path is connected, straight and within its distance budget",
 "The path a ray records starts where the ray was, goes straight from vertex to vertex, adds exactly one vertex per "
 "surface met, and ends at the ray's position. A run moves the ray by exactly the distance asked for unless it is "
 "absorbed or reaches its interaction limit first; it never moves it further, and a spent budget (zero or negative), "
 "a limit of 0 or an absorbed ray means no movement at all. Running or flying again appends to the path and never "
 "rewrites it.",
 ["inputs", "histories", "configurations"],
 "every scene, start, direction, budget, interaction limit and sequence of runs",
 "the tests never run a ray; paths depend on the whole scene and on what happened before",
 [O], [RUN, ("Ray.fly and the recorded plot points", O + " Ray.fly")]),
("C02", "The next thing a ray meets is the nearest surface ahead of it",
 "At every step the ray stops at the closest surface in front of it, of whatever kind of optic, and at nothing behind "
 "it or beyond its remaining distance; the order in which the optics are listed does not matter. A surface at, or "
 "just within, the end of the remaining distance is met, and hairline gaps between surfaces are resolved. A ray that "
 "has just interacted does not meet the same point again, but does meet the same optic elsewhere.",
 ["inputs", "configurations"],
 "every scene, listing order, direction and remaining distance",
 "the tests intersect one shape at a time; choosing among many optics is never exercised",
 [O, S], [RUN, ("clipping floor against hitting the surface just left", O + " INTERSECT_CLIPPING_FLOOR")]),
("C03", "Directions stay finite unit vectors; tracing leaves a ray's identity alone",
 "A ray's direction is a finite unit vector from the moment it is made, whatever the length of the vector given, and "
 "after every interaction with any optic, however many there have been. Tracing never changes the ray's wavelength, "
 "its diffraction order or its type.",
 ["inputs", "histories"],
 "every direction vector, scene and number of interactions (hundreds)",
 "the tests never trace a ray; drift appears only over long chains",
 [O, GO], [("normalisation in Ray and in refract/reflect", O + " Ray"), ("unit_vector", GO + " unit_vector")]),
("C04", "Mirrors obey the law of reflection",
 "Off every mirror - round, rectangular, concave, ball, a micromirror array, a solid with a mirror surface, or a "
 "grating in zeroth order - the outgoing direction is i - 2(i.n)n with n the surface's normal at the point hit (for "
 "a micromirror array, the micromirrors' normal). It holds on both faces and inside closed mirrors, whatever the "
 "length or sign of the normals given, and does not depend on the wavelength.",
 ["inputs", "configurations", "histories"],
 "every mirror shape, pose, incidence and face",
 "no test reflects a ray",
 [O, S, GO], [("Mirror.test_intersect / do_intersect", O + " Mirror"), ("Ray.reflect", O + " Ray.reflect"),
              ("Compound.do_intersect reflect", O + " Compound")]),
("C05", "Glass surfaces obey Snell's law, and reflect totally beyond the critical angle",
 "At every surface of a ball lens or refracting solid the outgoing ray lies in the plane of incidence, on the other "
 "side, with n1 sin(theta1) = n2 sin(theta2); beyond the critical angle it is mirror-reflected and stays on its side. "
 "The indices are those of the sides the ray comes from and goes to, whichever way it crosses, wherever it started, "
 "for any index (also below 1), and outside all bodies the index is 1.",
 ["inputs", "configurations", "histories"],
 "every body, index, incidence, and direction of crossing, also for rays that start inside",
 "no test refracts a ray",
 [O, GO, S], [("Ray.refract snell", O + " Ray.refract"), ("Lens.do_intersect, Compound.do_intersect", O),
              ("inside/outside flag of test_intersect", O + " Ray.run")]),
("C06", "An ideal lens images every point perfectly",
 "Every ray from an object point at distance a in front of an ideal lens of focal length f leaves it along a line "
 "through the point at distance b with 1/a + 1/b = 1/f and lateral magnification -b/a, real or virtual, on or off axis, "
 "from either side. Chief rays go straight on, parallel bundles meet in the focal plane, rays from the front focus leave "
 "parallel to the axis, and relays of lenses compose accordingly.",
 ["inputs", "configurations"],
 "every lens pose, focal length f > 0, object point and ray height",
 "no test uses a lens; imaging is a statement about all rays of a pencil",
 [O, GO], [("Ray.refract thin_lens", O + " Ray.refract"), ("Lens.do_intersect", O + " Lens.do_intersect")]),
("C07", "Ideal collimators and focusers do exactly that",
 "Every ray that meets an ideal collimator leaves parallel to its axis, going on to the far side. Every ray that meets "
 "an ideal focuser leaves along the line through the one focal point at distance f on the axis on the far side, from "
 "either side and at any angle.",
 ["inputs", "configurations"],
 "every pose, f > 0, height and angle of incidence, either face",
 "no test uses a lens",
 [O], [("Ray.refract ideal_collimate / ideal_focus", O + " Ray.refract"), ("Lens.do_intersect", O + " Lens.do_intersect")]),
("C08", "Gratings obey the grating equation for every order",
 "In the plane across the grooves sin(alpha) + sin(beta) = G m lambda, with angles from the grating's normal on the side "
 "the light comes from, G in lines per millimetre, lambda in nanometres and m the ray's order; the direction component along the "
 "grooves is kept and the light leaves on the side it came from. Order 0 is a mirror, and an order with |sin(beta)| > 1 "
 "ends at the grating.",
 ["inputs", "configurations"],
 "every groove density, wavelength, positive or negative order, and incidence in and out of plane from either side",
 "no test uses a grating",
 [O, GO], [("Ray.reflect grating", O + " Ray.reflect"), ("Grating.do_intersect", O + " Grating.do_intersect")]),
("C09", "Detectors record every ray that reaches them exactly once",
 "A ray that meets a detector, from either side, ends there, and the detector gains exactly one row with that ray's end point "
 "and wavelength; rows are in order of arrival. No other ray adds a row anywhere, rows already recorded never change, "
 "and running an absorbed ray again adds nothing.",
 ["inputs", "histories", "configurations"],
 "every history of rays, including repeated and resumed ones, over scenes with several detectors",
 "no test uses a detector; the property is about whole histories",
 [O], [("Detector.do_intersect", O + " Detector.do_intersect"), RUN]),
("C10", "Flat apertures are hit exactly inside their rim and exactly ahead",
 "A ray meets a plane, disc or rectangle exactly if the point where its line crosses the plane lies ahead and within the rim: within "
 "half the diameter of the centre, or within half the height along the tangent and half the width across it. The point "
 "reported is that crossing; rays running parallel or away meet nothing, and neither the lengths of the "
 "vectors given nor whole-number arrays change the answer.",
 ["inputs", "configurations"],
 "every pose, size and ray, up to rounding error of the rim, including whole-number lattices on the rim",
 "three rectangle tests sample single rays",
 [S, O], [("Plane, Circle, Rectangle.test_intersect", S), ("flat branches of Mirror, Lens, Grating, Detector.test_intersect", O)]),
("C11", "Spheres and cylinders report all crossings ahead, nearest first",
 "Asked for a ray, a sphere or infinite cylinder reports exactly the crossings that lie ahead of it, nearest first: two from "
 "outside, one from inside, none when it passes by, points away, or (cylinder) runs parallel to the axis. The points lie "
 "on the surface and on the ray's line, the normals belong to them and are unit vectors towards the centre or axis, the inside/outside "
 "answer is right, and a point is said to be inside exactly if it is nearer than the radius.",
 ["inputs"],
 "every centre, radius, axis and ray, inside, outside, on or near the surface",
 "a few sphere tests at the origin; no cylinder test",
 [S], [("Sphere.test_intersect, test_point, normal", S + " Sphere"), ("InfiniteCylinder.test_intersect, test_point, normal", S + " InfiniteCylinder")]),
("C12", "Rays meet a CSG solid exactly where they first cross its boundary",
 "For a solid built by union, intersection and difference from spheres and cylinders, a ray stops exactly at the first "
 "place ahead where it passes from outside the solid to inside or from inside to outside, never at a surface of a "
 "part that is not a surface of the solid, and misses exactly if there is none. The normal used there is that of the part's surface, and it "
 "is known whether the ray was inside.",
 ["inputs", "programs"],
 "every CSG tree with convex operands (and chains of unions seen from outside) and every ray",
 "no test intersects a tree; the first boundary depends on all parts",
 [GO, O, S], [("operCsgUnion / operCsgIntersect / operCsgDifference", GO), ("helper_findIntersects", GO),
              ("test_tree_intersect, postOrderEval", GO), ("Compound.test_intersect", O + " Compound.test_intersect")]),
("C13", "Membership in a CSG solid is Boolean, and gives the index at a point",
 "A point is inside a CSG solid exactly if the Boolean expression of its parts' membership says so, for trees of any depth. "
 "The index of refraction at a point is that of the solid containing it and 1 outside all of them; where solids overlap it is one "
 "of theirs.",
 ["inputs", "programs"],
 "every tree over spheres and cylinders, every point, every collection of solids",
 "no test evaluates a tree",
 [GO, O], [("test_tree_point, operCsgIndex*", GO), ("get_index_at_point, Compound.get_index_at_point_if_inside", O)]),
("C14", "Curved mirrors focus and reflect whole beams as spheres of their radius do",
 "A concave mirror of focal length f is the part of the sphere of radius 2f around the point 2f along its normal that "
 "lies within its diameter: rays from the centre return on themselves, paraxial parallel light meets at f, and rays outside the aperture pass by. It is met from both faces, from however near, "
 "and again by a ray it has reflected across to its other side. "
 "Off a ball mirror every ray keeps its impact parameter, and inside one it runs "
 "along a regular polygon for as long as it is followed.",
 ["inputs", "histories"],
 "every pose, f-number, height and angle; up to hundreds of reflections",
 "no test reflects off a curved mirror",
 [O, S], [("Mirror.test_intersect concave and spherical branches", O + " Mirror.test_intersect"), ("Sphere.test_intersect", S)]),
("C15", "Space has no preferred place, direction, handedness or unit of length",
 "Rotating, translating, mirroring, permuting the axes of, or uniformly rescaling a whole scene (with groove densities and wavelengths "
 "scaled alike) together with its rays gives the same paths, moved likewise. Equivalent ways of writing the same scene - normals and tangents of other lengths "
 "or opposite signs, whole numbers instead of floats, swapped operands of unions and intersections - give the same paths. "
 "Only gratings make paths depend on wavelength.",
 ["inputs", "configurations"],
 "every scene, motion, scale and rewriting",
 "a metamorphic statement over pairs of runs; the tests run none",
 [O, S, GO], [("all of test_intersect / do_intersect", O), ("shape intersections", S), RUN]),
("C16", "Light paths are reversible",
 "A ray started at the end of another's path, in the opposite direction, visits the same points in the opposite order, through mirrors "
 "of every kind, ball lenses, refracting solids, ideal imaging lenses and gratings in zeroth order.",
 ["inputs", "configurations"],
 "every scene of such optics and every path that ends in free space",
 "a statement over pairs of runs; the tests run none",
 [O, S, GO], [("Ray.refract, Ray.reflect", O), ("Ray.run", O)]),
("C17", "Rays do not influence one another, and tracing has no side effects",
 "What happens to a ray depends on the ray and the optics only: not on which rays were traced before, in what order, how often, on "
 "printing, drawing, or questions asked in between, nor on random seeds. Tracing "
 "changes nothing but the ray itself and detectors' records: arrays handed in by the user and the optics' properties stay as they were, "
 "and objects made from the same arrays do not affect one another; a ray's direction and an optic's normal are its own, even if the caller reuses the array.",
 ["histories", "inputs"],
 "every history of runs and observations through a shared scene",
 "a statement about histories; each test makes its own objects and runs nothing",
 [O, GO, S], [("Ray.run, Ray.fly (positions rebound, not modified)", O), ("default arguments", O + " Ray.run")]),
("C18", "Stopping a run and going on gives the same path as not stopping",
 "Running a ray to an interaction limit or through part of its distance and then running it on, any number of times, visits the same "
 "surfaces and ends in the same place and direction as a single run; so does a new ray started from where one stopped, in the same direction.",
 ["histories", "inputs"],
 "every scene and every way of cutting a run into pieces, including at surfaces and inside glass",
 "a statement over histories of calls; the tests run none",
 [O], [RUN, ("clipping floor", O + " INTERSECT_CLIPPING_FLOOR")]),
("C19", "Vector algebra: lengths, angles, projections, rotations hold for all vectors",
 "Unit vectors have length 1 and the same direction, distances are Euclidean, and angles between vectors are in 0..pi, also for "
 "nearly and exactly parallel and opposite vectors, with the sign given by the reference normal if there is one. "
 "Rotation about an axis (of any length) by any angle is the right-handed rotation: orthogonal, determinant 1, composing and inverting. "
 "The projection onto a plane removes exactly the component along the normal.",
 ["inputs"],
 "every vector of any length and every angle",
 "a dozen tests sample axes and right angles",
 [GO], [("unit_vector, angle_between, distance_between", GO), ("rotation_matrix_axis_angle", GO), ("project_onto_plane", GO)]),
("C20", "Alignment matrices are proper rotations, and homogeneous matrices act as such",
 "The matrices that turn one direction into another are proper rotations that do so for every pair of vectors - of any length, equal, "
 "opposite, nearly so - and turn by the angle between them about the axis perpendicular to both. The 4x4 scaling, translation and rotation matrices "
 "transform points and directions accordingly, and a round trip into an object's frame and back is the identity.",
 ["inputs"],
 "every pair of vectors, scaling and translation",
 "no test covers these matrices",
 [GO], [("rotation_matrix, rotation_matrix2, rotation_matrix4", GO), ("scaling_matrix4, translation_matrix4", GO)]),
("C21", "The binary tree keeps its structure through every history of operations",
 "After any sequence of insertions and root changes anywhere in any number of trees, each tree is what the textbook says: "
 "inserting on a side puts the new node there and pushes the subtree that was there down the same side of it, and nothing else changes. The "
 "text of a CSG tree is its fully parenthesised expression.",
 ["histories", "programs"],
 "every history of operations, every tree",
 "no test covers the tree",
 [GO], [("BinaryTree", GO + " BinaryTree"), ("postOrderEval, printCsg*", GO)]),
("C22", "The test pattern is a full grid of origins times a fan of directions",
 "The image test pattern has exactly one ray for every combination of x position, z position and angle on the evenly spaced, "
 "centred grids asked for (a resolution of one meaning the centre), starting at the y given, with unit directions fanned out in the y-z plane. "
 "Rays that start within the circle, rim included, have one colour and all others the other; resolutions below one are refused. Every origin and direction is an array of its own.",
 ["inputs"],
 "every size, resolution, spread and diameter",
 "no test covers it",
 [GO], [("image_rays", GO + " image_rays")]),
("C23", "Optics are drawn where they are, as big as they are",
 "In the 3-D view every mirror, lens, grating and detector is drawn as its disc, rectangle or ball, at its position, with its orientation and "
 "size; the flat views show it at its position and size; flat patches put into space lie where, and face where, they were put. Equalised axes show everything, with one scale for all three "
 "directions. Drawing a whole scene with its rays' paths succeeds and renders, and changes nothing; show_plot shows the figure it is asked for.",
 ["inputs", "configurations"],
 "every optic, pose, size and viewpoint",
 "no test draws",
 [O, GO, G], [("draw methods", O), ("pathpatch_2d_to_3d, pathpatch_translate", GO), ("set_axes_equal", G)]),
("C24", "Numbers and objects are printed as what they are",
 "A number printed to p significant digits has exactly p significant digits, is the correctly rounded value (halves away from zero), and uses an exponent exactly when "
 "it is very small or has more digits than asked for. The description of every ray, optic, shape and solid can be made, names its kind, and contains its "
 "position and other properties; number tables contain every number once, in order, in the format asked for. "
 "Printing a trajectory reports every run and changes nothing.",
 ["inputs", "programs"],
 "every number, precision, object and array",
 "no test prints",
 [G, O, S, GO], [("to_precision, prism10widetextarray, nparray2spacedstring", G), ("__repr__ methods", O)]),
("C25", "The colour of a wavelength is the standard approximation, and a valid colour",
 "Every wavelength gives a colour with all components in 0..1: Bruton's piecewise-linear approximation with intensity falling off towards "
 "the ends of the visible range and the gamma asked for. It is continuous, wavelengths below the floor or above the ceiling have the "
 "colour of the floor or the ceiling, and how the number is given (text, whole number, array scalar) does not matter.",
 ["inputs"],
 "every wavelength, gamma, floor and ceiling",
 "no test covers it",
 [G], [("wavelength_to_rgb", G + " wavelength_to_rgb")]),
("C26", "Contradictory or incomplete specifications are refused, consistent ones accepted",
 "Making a solid without a size, with a radius and diameter that disagree, a rectangle without or with negative sides, or with a tangent not in its "
 "plane is an error, as are unknown kinds of surface, lens, mirror, reflection or refraction and flights of no distance. "
 "Every consistent specification is accepted, and radius or diameter describe the same solid.",
 ["inputs", "configurations"],
 "every combination of arguments",
 "one test of the kind exists (tangent); the argument space is not sampled",
 [S, O], [("check_R_and_D, check_h_and_w", S), ("constructors", O)]),
("C27", "The numerical helpers compute what they are named after",
 "Smoothing is the least-squares polynomial (Savitzky-Golay) filter of the window, order and derivative asked for, reproduces polynomials of its order, and "
 "refuses unsuitable windows; running means, nearest elements and log-log interpolation are what they say. Photon energies and "
 "wavelengths are inverse conversions, the quantum concentration and gas entropy follow their formulae, and the Fermi-Dirac integrals match the integral to the accuracy they claim.",
 ["inputs"],
 "every signal, window, table and parameter in the documented ranges",
 "no test covers them",
 [G], [("savitzky_golay, movingAverageFast, find_nearest, log_interp1d", G),
       ("FD_int_num, FD_int_approx, get_nQ, sackurTetrode, wavelength_nm_to_energy_eV", G)]),
("C28", "Deleting by extension deletes those files and nothing else",
 "Exactly the files whose names end in the extension given disappear, in the folder only or in all its subfolders as asked. All other files, folders, "
 "links' targets and everything outside the folder keep existing unchanged.",
 ["inputs", "configurations"],
 "every folder tree and extension",
 "no test covers it, and what must not happen outweighs what must",
 [G], [("delete_files_with_extension", G + " delete_files_with_extension")]),
("C29", "Probe rays outline the outer surface of a scene",
 "Adding probe rays appends exactly the number asked for to the list, keeping those in it, all starting on the sphere of the radius and centre given, evenly "
 "spread over it in all directions, and aimed at its centre. A probe ray stops at the first surface it meets, whatever the optic, without being "
 "reflected, refracted, or recorded by detectors.",
 ["inputs", "configurations"],
 "every radius, centre and number of rays, every scene",
 "no test covers it; the spread is a statistical property",
 [O], [("add_faerie_fire_rays", O + " add_faerie_fire_rays"), RUN]),
("C30", "Glass bodies do to whole beams what lens theory and conservation laws say",
 "A ball lens deviates each ray by the closed-form amount and focuses paraxial light at nR/2(n-1); thick lenses made of intersecting balls have the "
 "lensmaker's focal length from both sides. Centred systems conserve each ray's skew invariant, rods and balls guide light beyond "
 "the critical angle without loss for as long as it is followed, and mirrors and glass conserve etendue (their ray maps are symplectic).",
 ["inputs", "histories", "programs"],
 "every index, shape, height and skewness, and chains of many reflections",
 "no test refracts; these laws concern whole beams and whole histories",
 [O, GO, S], [("Ray.refract snell", O), ("Compound, Lens ball", O), ("CSG operators", GO)]),
("C31", "The example scripts run to the end, and every ray in them obeys the laws",
 "Every shipped example script runs to completion without a display, reading and writing only files beside it. Every ray it traces follows the laws of "
 "propagation, reflection, refraction, diffraction, imaging and detection that hold for the optics it defines, and detectors' records agree "
 "with the rays absorbed.",
 ["programs", "configurations"],
 "every example script, for any state of the random generator",
 "the tests do not run the scripts",
 ["script_test.py", "script_czerny1.py", "script_testImaging.py", "script_testCompound.py", O], [("the scripts", "script_*.py"), RUN]),
("C32", "Optics that users make take part in a scene like the built-in ones",
 "An object that answers test_intersect and do_intersect is met like any other optic: do_intersect is called exactly once for every meeting, in order, with "
 "the ray standing at the surface and still heading the way it came, and the ray goes on with whatever direction, wavelength, order or absorption it was "
 "given there, which later gratings and detectors honour, and flies on from wherever it is set down there, for as far as it still had to go. Wrapping an optic in a transparent one changes nothing, probe rays never trigger do_intersect, "
 "users' annotations are never met, and a run started while another is under way (a beam splitter) disturbs neither.",
 ["inputs", "histories", "configurations"],
 "every scene with any mixture of built-in, wrapped and user-made optics, and every nesting of runs",
 "no test makes an optic of its own or traces a ray",
 [O], [RUN, ("the test_intersect / do_intersect protocol", O + " Optic"), ("Detector's record", O + " Detector.do_intersect")]),
("C33", "Rays traced in several threads at once go the way they go alone",
 "Separate rays may be traced through shared optics from several threads at once: each goes exactly the way it goes alone, and each detector holds exactly "
 "the hits of the rays absorbed on it, none lost, doubled or mixed, whatever the interleaving.",
 ["inputs", "schedules"],
 "every scene of shared optics, and every interleaving of the threads' instructions",
 "tests run in one thread; an interleaving that breaks sharing is a matter of chance",
 [O, S, GO], [RUN, ("shared optics and detectors", O), ("the CSG tree evaluation", GO + " test_tree_intersect")]),
("C34", "A run that is broken off leaves everything else as it was",
 "When a run is broken off at any point - an interrupt, memory running out, a user's optic or a nonsensical argument raising - no optic, input array, list "
 "or process setting is changed, the path recorded so far is a beginning of the path of the undisturbed run, detectors hold no hit of a ray that did not reach "
 "them, every ray traced afterwards goes exactly the way it would have gone, and the ray itself can be run on.",
 ["inputs", "crash_points", "histories"],
 "every scene and every instruction of a run at which it can be broken off",
 "tests never break a run off",
 [O, S, GO], [RUN, ("state shared by rays: optics, trees, detectors", O)]),
("C35", "Nothing piles up: long sessions cost what short ones do",
 "Tracing leaves nothing behind but the ray's own path and the detectors' records: memory, live objects and the work per step stay the same however many rays "
 "or interactions there have been before, the work of a run grows in proportion to its interactions and optics, and a ray that is dropped is freed.",
 ["inputs", "histories"],
 "every scene and any number of rays, runs and interactions before",
 "tests are short; what piles up shows only in long sessions",
 [O, S, GO], [RUN, ("point_history, hit_data", O)]),
("C36", "Tracing is silent and free of faults, and leaves the process alone",
 "Making optics, tracing, turning things into text and calling the vector, tree, colour, table and numeric helpers with valid input prints nothing, raises no warning and no floating-point fault (division by zero, "
 "overflow, invalid operation), also for rays through centres, along axes and edge-on; opens no file or connection, and leaves numpy's and Python's settings, "
 "random generators (but for probe rays), environment and working directory as they were.",
 ["inputs", "configurations"],
 "every valid scene and ray, special alignments included",
 "the tests never trace, and run with warnings and faults ignored",
 [O, S, GO, G], [RUN, ("shape intersections", S), ("CSG operators", GO), ("helpers", G)]),
("C37", "An argument left out means its default, every time",
 "Every optic, ray, run, reflection, test pattern, shape and helper behaves the same whether its optional arguments are left out or given their default values "
 "(532 nm, order 0, a normal silent ray; no optics and no limit in a run; round flat mirrors, index 1.5, reflecting solids; 11 x 11 x 3 patterns; a thousand "
 "probes; ...), by position or by name, however often and whatever was made or changed in between.",
 ["inputs", "histories"],
 "every subset of optional arguments, every way of passing them, and every history of calls in between",
 "the tests call each constructor in one way, once",
 [O, S, GO, G], [("constructors", O), ("Ray.run's optic_list default", O + " Ray.run"), ("image_rays", GO + " image_rays"), ("helpers", G)]),
("C38", "Copies are as good as the original, and their own",
 "Optics, surfaces, CSG trees, rays and whole scenes can be deep-copied and pickled (to be varied, stored, or sent to another process), new or used, at any "
 "point of a ray's path; the copy has the original's attributes, text, records and answers, rays take bit-identical paths through either, a copied ray runs on "
 "as the original does, and whatever is done with one (rays run, records made, trees built on) leaves the other as it was.",
 ["inputs", "histories"],
 "every scene and ray, every way and moment of copying, and every later history of original and copies",
 "the tests never copy anything",
 [O, S, GO], [("optics and rays", O), ("Detector.hit_data", O + " Detector"), ("Ray.point_history", O + " Ray"), ("BinaryTree", GO + " BinaryTree")]),
]

SHAPES = {
    "path": "online trajectory monitor against an independent geometric oracle over randomised scenes",
    "history": "histories of calls recorded at the API and checked against a reference model",
    "meta": "runtime monitoring of pairs of executions (metamorphic oracle) over randomised scenes",
    "func": "runtime oracle over randomised and boundary inputs to the real functions",
    "fs": "recorded file-system effects (stand-ins in a scratch folder) checked against a reference model",
    "beam": "runtime oracle of closed-form and conservation laws over traced beams",
    "draw": "monitor of what is rendered, projected back and compared with the optic",
    "threads": "deterministic scheduling of threads at every instruction, with a monitor comparing each ray with its undisturbed run",
    "faults": "fault injection at every instruction of a run, with a monitor of what is left behind",
    "cost": "memory, live-object and instruction counters over growing histories",
    "quiet": "monitors of floating-point faults, warnings, output, audit events and process state during tracing",
    "scripts": "the real scripts run with every ray watched by the trajectory monitor",
}
KIND = dict(C01="path", C02="path", C03="path", C04="path", C05="path", C06="path", C07="path", C08="path", C09="history",
            C10="func", C11="func", C12="path", C13="func", C14="beam", C15="meta", C16="meta", C17="history",
            C18="meta", C19="func", C20="func", C21="history", C22="func", C23="draw", C24="func", C25="func",
            C26="func", C27="func", C28="fs", C29="path", C30="beam", C31="scripts", C32="path", C33="threads", C34="faults", C35="cost", C36="quiet", C37="meta", C38="meta")
LIMITS = {
    "C06": " Converging lenses only.", "C07": " f > 0 only.",
    "C12": " Operands of intersections and differences convex, unions entered from outside; the rest of the tree space is under the known findings.",
    "C23": " Agg renderer; concave mirrors count as the disc at their vertex; CSG solids are not drawn by the code.",
    "C28": " Permissions, and files changing during the call, are not explored.",
    "C27": " The range limits of the helpers are listed in DESIGN.md.",
    "C33": " Interleavings are sampled, not enumerated.",
    "C35": " Counts, not seconds.",
    "C36": " Rays along a cylinder's axis are left out (known finding of C12); underflow is no fault.",
    "C30": " Gratings, micromirror arrays and ideal lenses are left out of the etendue law, which they do not obey.",
}


def main():
    have = {p[0] for p in P if os.path.exists(os.path.join(ROOT, "mon/props", p[0].lower() + ".py"))}
    rows = [p for p in P if p[0] in have]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for pid, title, st, over, text, why, files, mech in rows:
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({
                "id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                            "hook_needed": None}}) + "\n")
    checks = [{
        "property": p[0], "quick_cmd": "./run.py " + p[0], "thorough_cmd": "VERIF_TIER=thorough ./run.py " + p[0],
        "technique": "runtime monitoring: " + SHAPES[KIND[p[0]]], "level": "exploration",
        "level_note": "Held on the executions the evidence file counts, not proved; trusts the independent oracle in mon/ and CPython/numpy. "
                      "Outcomes within rounding of a decision boundary are not judged." + LIMITS.get(p[0], ""),
    } for p in rows]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./run.py --selftest", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo: everything is observed through the public API, so refactorings stay quiet. "
                            "Checks read /repo's working tree directly (pure Python, nothing to build)."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
