#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

V, A, X = "czone/volume/volume.py", "czone/volume/algebraic.py", "czone/volume/voxel.py"
G, AM = "czone/generator/generator.py", "czone/generator/amorphous_algorithms.py"
T, ST, PO = "czone/transform/transform.py", "czone/transform/strain.py", "czone/transform/post.py"
S, M = "czone/scene/scene.py", "czone/molecule/molecule.py"
PF, W = "czone/prefab/prefab.py", "czone/prefab/wulff.py"
ME, MI = "czone/util/measure.py", "czone/util/misc.py"
AD, AS = "czone/surface/adsorbate.py", "czone/surface/alpha_shape.py"

prop("C01", "A populated scene resolves overlaps by object priority",
 "After populating a scene, its atoms and species are exactly those atoms supplied by its objects that lie in the interior of no other object of the same or a lower priority number: lower numbers win overlaps, objects of equal priority both give up their intersection, and nothing else is removed, duplicated or altered. This holds whatever the order in which objects were added, whatever integers the priorities are (negative, gapped, repeated), for empty objects, and again after objects, priorities or transformations change and the scene is populated again. Molecules always contribute all of their atoms that no such volume covers, and remove nothing.",
 ["inputs", "programs", "histories"], "all finite non-empty sets of volumes, multi-volumes and molecules, all priority assignments, all orders of construction, all re-populations",
 "the tests never build a Scene; precedence is a joint property of every pair of objects and of their order, so it needs every configuration, not one",
 [S, V, M], [("priority levels and offsets", S + ":Scene._get_priorities"), ("pairwise exclusion", S + ":Scene.populate")],
 [("_checks", "per-object inclusion masks", S + ":Scene._checks")], ["Scene.populate", "Scene.all_atoms", "Scene.all_species", "Scene.ase_atoms"])

prop("C02", "A multi-volume behaves as one object whose grains resolve by priority",
 "A point is interior to a multi-volume exactly when it is interior to at least one of its members, at any depth of nesting. Populating it yields exactly the members' atoms that lie inside no other member of the same or a lower priority number, and outside of it (in a scene or in another multi-volume) it acts with its own single priority rather than those of its members. Transforming or copying it transforms or copies every member.",
 ["inputs", "programs", "histories"], "all trees of volumes with any priorities, member orders, transformations and copies",
 "the tests never build a MultiVolume; nesting, equal priorities and members without atoms only show up in combinations",
 [V], [("MultiVolume.populate_atoms", V), ("MultiVolume.checkIfInterior", V), ("MultiVolume.transform", V), ("MultiVolume.from_volume", V)],
 [("_volumes", "members", V + ":MultiVolume.volumes")], ["MultiVolume.atoms", "MultiVolume.species", "MultiVolume.checkIfInterior"])

prop("C03", "A volume's interior is the intersection of everything that defines it",
 "A point is interior to a volume exactly when it lies inside the convex hull of all points given to it so far (if there are any) and inside every algebraic surface added to it: opposite to the normal of a plane, within the radius of a sphere, and within the radius and half the length of the axis of a cylinder centred at its point. Boundary points count as interior, and a surface's tolerance extends its interior by exactly that distance. Adding points, replacing points, adding surfaces and changing the parameters of a surface take effect in every later query, and queries do not depend on the other points asked about.",
 ["inputs", "histories"], "all point sets, surfaces, orders of definition and query points, including collinear, coplanar, duplicate and boundary ones",
 "the tests sample spheres, planes and cylinders one at a time; combinations, hull updates and boundary points are not reached",
 [V, A], [("Volume.checkIfInterior", V), ("Volume.addPoints", V), ("BaseAlgebraic.checkIfInterior", A)],
 [("_hull/_tri", "hull and triangulation of the points", V + ":Volume"), ("_alg_objects", "surfaces", V + ":Volume")], ["Volume.checkIfInterior", "Sphere/Plane/Cylinder.checkIfInterior"])

prop("C04", "A populated volume holds every lattice site of its interior exactly once",
 "After populating a volume that owns a crystalline generator, its atoms are exactly the sites of the generator's infinite crystal (origin, current basis vectors, fractional positions) that are interior to the volume: none is missing, none is repeated, none lies outside, and each carries its own atomic number. This holds for every cell shape, orientation and origin, any position of the volume, sites given outside of the unit cell, and any mixture of points and surfaces that bounds the volume; an empty generator yields no atoms, and populating again gives the same atoms.",
 ["inputs", "histories"], "all unit cells, origins, orientations and bounded regions",
 "the tests never populate a volume; missing layers of cells at a face appear only for particular orientations and offsets",
 [G, X, V], [("Generator.supply_atoms", G), ("Voxel.get_extents", X), ("Volume.populate_atoms", V), ("Volume.get_bounding_box", V)],
 [("voxel", "origin and basis vectors of the crystal", G + ":Generator.voxel")], ["Volume.atoms", "Volume.species"])

prop("C05", "Generators reproduce the given unit cell and cover any requested region",
 "The crystal supplied by a generator has the lattice parameters, fractional coordinates and species of the structure, unit cell or space group it was made from (also for non-orthogonal cells), and is anchored at the generator's origin. For any set of bounding points the supplied atoms include every site of that crystal within their convex hull, each once, and all supplied atoms are sites of that crystal. Supplying atoms does not change the generator, and a later change of origin or structure takes effect.",
 ["inputs"], "all cells, space-group settings, origins and bounding point sets",
 "the tests never call a generator",
 [G, X], [("Generator.structure setter", G), ("Generator.supply_atoms", G), ("Generator.from_spacegroup/from_unit_cell", G), ("Voxel.get_extents", X)],
 [("bases/scale/origin", "cell vectors (columns), scale factors, anchor", X + ":Voxel")], ["Generator.supply_atoms", "Voxel.get_extents", "Voxel.sbases"])

prop("C06", "Rigid transformations carry a volume's region and its atoms together",
 "Applying a translation, rotation, reflection or inversion (default flags) to a volume, multi-volume or molecule maps its interior region and its atoms by that same motion: a point is interior afterwards exactly when its pre-image was before, and the atoms populated afterwards are the images of those populated before, with unchanged species. Sequences of transformations, applied one by one or as one combined transformation, compose in the order given, and rotations, reflections and inversions act about their own origin or plane.",
 ["inputs", "programs", "histories"], "all objects, all sequences of rigid transformations",
 "tests transform a molecule by random matrices only; region/crystal consistency under sequences is not tested",
 [T, V, G, A, M], [("applyTransformation", T), ("applyTransformation_bases", T), ("applyTransformation_alg", T), ("Volume.transform", V), ("Generator.transform", G)],
 [], ["Volume.checkIfInterior", "Volume.atoms", "Molecule.atoms", "Generator.voxel"])

prop("C07", "Unlocked and basis-only transformations move exactly what they say",
 "A transformation that is not locked moves a volume's region but leaves its crystal where it was. A locked basis-only transformation moves the region and reorients the crystal's basis vectors but keeps the crystal's origin; a locked full one also moves the origin, and translations never change basis vectors. A combined transformation is locked as soon as one of its members is, basis-only as soon as one of its members is, and acts as one. Applied to a generator directly, a transformation acts regardless of locking, general (non-orthogonal) matrices included, for which the images of hulls and planes are again the exact images of their points.",
 ["inputs", "programs"], "all flags, all transformations (also general matrices on hulls and planes), all objects",
 "flags are only meaningful through later populations, which tests never make",
 [T, V, G], [("locked/basis_only", T + ":BaseTransform"), ("Volume.transform", V), ("Generator.transform", G), ("MultiTransform.locked", T)],
 [], ["Volume.atoms", "Generator.voxel", "Volume.checkIfInterior"])

prop("C08", "Copies and attached parts are independent of their originals",
 "A copy made from a volume, multi-volume, generator, molecule or surface equals its original when made (apart from the changes requested with it: transformations in order, a replacement generator, other constructor arguments) and requesting them never changes the original. From then on no operation on one (transforming, adding points or surfaces, changing priority, origin or generator, populating) is visible through the other. A generator or surface attached to a volume, and arrays passed to constructors and setters of any object (transformations and molecules as well), may be changed afterwards without affecting it, and the same generator can be attached to many volumes.",
 ["histories", "programs"], "all histories of copying, attaching and mutating",
 "tests check that a fresh molecule copy equals its original; aliasing appears only after later mutations of one side",
 [V, G, A, M], [("deepcopy on attach", V + ":Volume.add_generator/add_alg_object"), ("from_volume", V), ("from_generator", G), ("from_alg_object", A), ("from_molecule", M)],
 [], ["all observable attributes of all live objects after each operation"])

prop("C09", "Molecules keep positions, species and tracked origin consistent",
 "Through any sequence of updates, transformations, removals and copies, a molecule's i-th position and i-th species describe the same atom, and removing atoms removes exactly those requested and keeps the order of the rest. An origin set as a point stays fixed except that transformations move it with the atoms (unless told not to); an origin set to track an atom is always the current position of that same atom, also after other atoms are removed, and naming a new origin atom when removing makes that very atom the origin. A rejected request leaves the molecule unchanged.",
 ["histories", "inputs"], "all histories of molecule operations, all index sets including negative indices",
 "the tests remove atoms from fresh molecules; tracking through removal happens only in sequences",
 [M], [("set_origin", M), ("remove_atoms", M), ("transform", M), ("set_atoms", M)],
 [("_origin_idx", "tracked atom", M), ("_origin", "fixed origin", M)], ["Molecule.atoms", "Molecule.species", "Molecule.origin"])

prop("C10", "Strain fields displace the crystal as specified about their origin",
 "With a homogeneous strain attached, each atom supplied by a generator is displaced to the position given by the strain matrix applied to its coordinates relative to the strain origin (crystal coordinates in crystal mode, Cartesian ones in standard mode), where the origin is the generator's current origin unless a fixed one was given; 3, 6 (Voigt) and 9 values specify the same matrices as their 3x3 forms. An inhomogeneous strain applies the user's function to coordinates in the same frames and with the user's keyword arguments. Species, the number of atoms and the generator itself are unchanged, and identity strain changes nothing.",
 ["inputs", "histories"], "all matrices, modes, origins, generators (after transformations as well)",
 "no test applies a strain",
 [ST, G], [("HStrain.matrix", ST), ("HStrain.apply_strain", ST), ("IStrain.apply_strain", ST), ("BaseStrain.scrape_params", ST), ("strain application", G + ":Generator.supply_atoms")],
 [("origin_type", "generator or fixed", ST), ("mode", "crystal or standard", ST)], ["Generator.supply_atoms", "BaseStrain.apply_strain"])

prop("C11", "Chemical substitution changes only targeted species, at the given rate",
 "A substitution leaves all positions and all untargeted species as they are, turns atoms of each targeted species into nothing but that species' substitute, replaces all of them for a fraction of one and none for a fraction of zero, never chains one replacement into another, and replaces in the requested proportion; equal seeds give equal results. A sequence of post-transformations applies them in order, each to the result of the previous one, after generation and before strain and before the volume cuts the crystal. The input arrays are not modified.",
 ["inputs"], "all species arrays, target/substitute lists, fractions, seeds and sequences",
 "no test runs a post-transformation; chaining needs targets which are also substitutes",
 [PO, G], [("ChemicalSubstitution._replace_species", PO), ("PostSequence.apply_function", PO), ("order of application", G + ":Generator.supply_atoms")],
 [], ["ChemicalSubstitution.apply_function", "PostSequence.apply_function", "Generator.supply_atoms"])

prop("C12", "Amorphous blocks honour bond distance, periodicity, count and bounds",
 "Both amorphous generation algorithms return exactly round(density x volume) atoms, all within the block, and no two of them closer than the minimum distance when distances wrap around in X and Y but not in Z. This holds for every block shape, including sides that are not multiples of the minimum distance and sides of only one or two such lengths. Equal seeds and inputs give identical results, different seeds differ, and inputs are not modified.",
 ["inputs", "schedules"], "all block sizes, distances, feasible densities, batch sizes and seeds (orders of random insertion)",
 "no test generates a block; violations need atoms on particular sides of particular voxels",
 [AM, ME], [("gen_p_substrate", AM), ("gen_p_substrate_batched", AM), ("get_voxels", AM), ("get_p_dist", AM)],
 [("voxels", "atoms by voxel", AM)], ["gen_p_substrate", "gen_p_substrate_batched"])

prop("C13", "Amorphous generators fill their volume with the requested material",
 "An amorphous generator supplies, anywhere in space, a block that spans the bounding box of what is asked for, with its own density, minimum distance and species, so a volume that owns one is filled with atoms of that species at that density inside its region and nowhere else. With reuse switched on, the previous block is returned unchanged (and moves along with locked transformations), whatever was done to the arrays returned before; otherwise a new block that fits the current region is generated.",
 ["inputs", "histories"], "all boxes and parameters, all sequences of supply/transform/reuse",
 "no test uses an amorphous generator",
 [G, V], [("AmorphousGenerator.supply_atoms", G), ("AmorphousGenerator.transform", G)],
 [("_old_result", "previous block", G), ("use_old_result", "reuse flag", G)], ["AmorphousGenerator.supply_atoms", "Volume.atoms"])

prop("C14", "The voxel grid lists exactly the adjacent voxels under each periodicity",
 "For every grid size and every combination of periodic axes, the neighbours listed for a voxel are exactly those voxels (itself included) whose index differs by at most one along each axis, where periodic axes wrap around and others do not, in the documented x-then-y-then-z numbering. Fully periodic grids list 27 entries per voxel.",
 ["configurations"], "all grid sizes and periodicities",
 "no test builds a grid; each combination of faces, edges and corners is a separate case",
 [ME], [("get_voxel_grid", ME)], [], ["get_voxel_grid"])

prop("C15", "The radial distribution counts every pair within the cutoff once per atom",
 "The radial distribution of a set of points counts, in bins of 0.1, for each atom every other atom within the cutoff exactly once, where distances along periodic axes are the shorter way around the extent of the set and other axes do not wrap. The result does not depend on the order or overall position of the points and the points are not modified. The distance function for given periodic axes agrees with that definition.",
 ["inputs"], "all point sets, cutoffs and periodicities",
 "no test computes a distribution; miscounts need points in particular voxels",
 [ME], [("calc_rdf", ME), ("get_sdist_fun", ME), ("get_voxel_grid", ME)], [], ["calc_rdf", "get_sdist_fun"])

prop("C16", "Random splits are separated, in range, complete and always terminate",
 "A request for n splits of a length l with separation m returns n sorted integers, each at least m and less than l-m, successive ones at least m apart, whenever such a choice exists, and every such choice can occur; otherwise it raises an error rather than running forever. Zero splits give an empty list and equal seeds give equal splits.",
 ["inputs", "schedules"], "all n, m, l and all sequences of random choices",
 "no test requests splits; dead ends occur only for unlucky random choices in tight cases",
 [MI], [("get_N_splits", MI)], [("idx.mask", "forbidden positions", MI)], ["get_N_splits"])

prop("C17", "Snapped planes are genuine lattice planes next to the given point",
 "A plane snapped near a point has the orientation of the given Miller indices in the crystal as it is generated (after transformations, offsets of the origin and homogeneous strain) and passes through a lattice plane of that family. It is the closest one in nearest mode, the next one towards the crystal's origin in floor mode and the next one away from it in ceil mode, where a point on a lattice plane stays on it.",
 ["inputs", "histories"], "all points, Miller indices, crystals, strains and modes",
 "no test snaps a plane",
 [A], [("snap_plane_near_point", A)], [], ["snap_plane_near_point"])

prop("C18", "FCC planar defects give perfect close packing with the requested faults",
 "The object built for an FCC crystal occupies the given volume and consists of undistorted close-packed {111} layers stacked without overlaps or gaps: no two atoms are closer than the nearest-neighbour distance and no site of the stacking is vacant. It contains exactly the requested number of defects, at least the minimum separation apart (where the volume has room for them); stacking faults shift the stacking by one position, and twins mirror it, according to the requested ratio (only one kind for ratios 0 and 1). The given volume and generator are unchanged.",
 ["inputs", "schedules"], "all volumes, {111} variants, orientations, origins and scales of the crystal, numbers and kinds of defects, random choices",
 "no test builds a prefab; wrong shift directions show only for particular sequences of twins and faults",
 [PF, A, MI], [("fccMixedTwinSF.build_object", PF), ("get_N_splits", MI), ("snap_plane_near_point", A)],
 [("twin_last", "handedness of the current grain", PF)], ["build_object().atoms", "build_object().volumes"])

prop("C19", "Wurtzite stacking faults keep bonding intact and are of type I1",
 "The object built for a wurtzite crystal keeps every bond across each fault: no two atoms are closer than the bond length and atoms inside the volume keep four nearest neighbours of the other species. Each of the requested number of faults turns the two-layer stacking into one with exactly one cubic-like layer (ABAB|CBCB), successive faults being at least the minimum separation apart, for any origin, orientation and scale of the crystal.",
 ["inputs", "schedules"], "all volumes, crystals, numbers of faults, random choices",
 "no test builds a prefab; errors appear only from the second fault on or for faults on odd layers",
 [PF, A, MI], [("wurtziteStackingFault.build_object", PF)], [("polarity", "direction of the next shift", PF)], ["build_object().atoms"])

prop("C20", "Surface alignment brings two surfaces into contact face to face",
 "The transformation computed for a moving and a target plane maps the moving plane onto the target plane with opposite normals, and maps the moving reference point to a point whose projection on the target plane is that of the target reference point. It is a rotation followed by a translation, works for planes in any relative position and orientation (parallel and antiparallel ones as well) and changes none of its inputs.",
 ["inputs"], "all pairs of planes and points",
 "no test aligns surfaces",
 [T, A], [("s2s_alignment", T), ("rot_vtv", T), ("Plane.project_point", A)], [], ["s2s_alignment"])

prop("C21", "Adsorbates are placed rigidly at bond length from an eligible surface atom",
 "A placed adsorbate is a rigid copy of the given molecule whose chosen atom lies exactly the requested bond length from an atom of the volume that is on its outside and satisfies every filter (element, mask, index and spatial filters combined), with the chosen molecular direction along that bond and the requested rotation about it. Success is reported exactly when none of its atoms is interior to the volume; the given molecule and volume are unchanged and equal seeds give equal placements.",
 ["inputs", "schedules"], "all volumes, molecules, filters, seeds",
 "no test places an adsorbate",
 [AD, AS], [("add_adsorbate", AD), ("alpha_shape_alg_3D", AS), ("find_approximate_normal", AD)], [], ["add_adsorbate"])

prop("C22", "Exported structures contain exactly the atoms of the object",
 "Writing a scene or volume to a file, in any explicitly or implicitly chosen format, or converting it, a volume or a molecule to ASE atoms, yields each of its atoms exactly once with its position and species, and for scenes a cell with the size of the bounds. For the prismatic format Debye-Waller factors default to 0.1 Angstrom RMS for every species unless given.",
 ["inputs", "configurations"], "all scenes and file formats",
 "no test writes a file",
 [S, V, M], [("Scene.to_file", S), ("BaseVolume.to_file", V), ("ase_atoms", S)], [], ["Scene.to_file", "BaseVolume.to_file", "ase_atoms"])

prop("C23", "Wulff particles are bounded by the right facets at Wulff distances",
 "The volume of a single-crystal Wulff construction of a cubic crystal is bounded by complete families of symmetry-equivalent crystal planes, at distances from the centre proportional to their surface energies, so that it is the energy-minimising shape, and it is filled with the given crystal, in its given orientation, at about the requested number of atoms (the volume is that of the requested number of atoms); the named shapes are the cube, the octahedron and their truncations. A Winterbottom construction (interface energy smaller in magnitude than half of the smallest surface energy) is the same shape cut by its interface plane, facing -Z, at the distance given by the interface energy, with the crystal oriented consistently with its facets. The given generator is unchanged, and constructions of one object reflect its current parameters only.",
 ["inputs"], "all energies, sizes and interfaces of cubic crystals",
 "no test builds a Wulff construction",
 [W], [("WulffBase.planes_from_wulff", W), ("WulffSingle", W)], [], ["get_construction", "winterbottom", "cube", "octohedron", "cuboctohedron", "truncated_octohedron"])

prop("C24", "Invalid requests are rejected and leave objects unchanged",
 "Operations given values outside of their documented domain (non-integer priorities, non-positive radii, lengths, tolerances, densities and distances, zero normals and axes, arrays of the wrong shape, matrices that are no rotations, parts of the wrong type, collinear basis vectors, out-of-range indices) raise an error, and every object involved still has all its previous observable values afterwards and remains usable. Valid values on the boundary of these domains are accepted.",
 ["inputs", "histories"], "all setters and constructors, all invalid values, at any point of a history",
 "tests probe some invalid values on fresh objects and never look at the object afterwards",
 [V, A, X, T, M, G, PF, PO, ST, S], [("property setters", A), ("property setters", V), ("property setters", M), ("Rotation.matrix setter", T)], [], ["exceptions and observable attributes"])

prop("C25", "Bounding boxes enclose their region, or there is none",
 "The extremities reported for a volume, sphere, cylinder or set of planes span a convex region that contains the whole region they describe. For a set of planes the extremities are exactly the vertices of the enclosed region wherever it lies in space, success is reported exactly when that region is non-empty and bounded, and otherwise no vertices are returned.",
 ["inputs"], "all plane sets, cylinders and volumes at all positions and orientations",
 "the tests use one cube of planes and random cylinders",
 [A, V], [("get_bounding_box", A), ("Volume.get_bounding_box", V), ("Cylinder.get_bounding_box", A), ("convex_hull_to_planes", A), ("makeRectPrism", V)], [], ["get_bounding_box", "Volume.get_bounding_box", "convex_hull_to_planes"])

prop("C26", "Grain boundaries split a volume into two oriented grains",
 "A grain boundary object built from a volume, a plane and two zone axes consists of the part of the volume on the inner side of the plane, filled with the crystal oriented such that the first zone axis points along Z, and of the rest of the volume, filled with the crystal with the second zone axis along Z; the grains do not overlap and together occupy exactly the volume. The given volume, generator and plane are unchanged.",
 ["inputs"], "all volumes, crystals, planes and zone axes",
 "no test builds a grain boundary",
 [PF, T], [("SimpleGrainBoundary.build_object", PF), ("rot_vtv", T)], [], ["build_object().atoms"])

prop("C27", "Rotation utilities return the rotations they promise",
 "Every returned matrix is a proper rotation. Rotating about a vector turns by the given angle counter-clockwise and fixes the vector; aligning one vector to another maps its direction exactly onto the other's along the shortest way, also when they are parallel or antiparallel; aligning sets of vectors related by a rotation returns that rotation; and z-x-z Euler angles give the documented intrinsic and extrinsic sequences. The angle between two vectors lies between zero and pi and is exact for parallel, perpendicular and opposite ones.",
 ["inputs"], "all vectors, angles and vector sets",
 "no test calls them; degenerate pairs are measure-zero inputs that users nevertheless give",
 [T, MI], [("rot_v", T), ("rot_vtv", T), ("rot_align", T), ("rot_zxz", T), ("vangle", MI)], [], ["rot_v", "rot_vtv", "rot_align", "rot_zxz", "vangle"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
