#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, obs=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Vector arithmetic obeys the vector-space and Euclidean laws",
  "For every pair of real, integer or complex vectors, sums, differences, scalings, dot and cross products, norms, angles, rotations and component selection give the values that component-wise arithmetic defines, and no operation that returns a new vector changes its operands. Equality (within the documented tolerance), inequality and the ordering used to sort vectors are consistent with each other: ordering is irreflexive and asymmetric, and exactly one of less, equal-in-position or greater holds for well separated vectors.",
  ["inputs"], "every vector of dimension 2-6 over reals, integers and complex numbers, including zero, parallel, axis-aligned and widely scaled vectors",
  "The unit tests evaluate a handful of literal vectors; a law over all operand pairs (aliasing, zero and parallel operands, mixed magnitudes) is not sampled.",
  ["src/core/math/vector/Cartesian.h", "src/core/math/vector/Cartesian.hpp"],
  [("component-wise operators", "src/core/math/vector/Cartesian.hpp"), ("tolerant comparison", "src/core/math/vector/Cartesian.hpp operator==, operator<")])

p("C02", "Matrix products, inverses, determinants and sorting are exact linear algebra",
  "Products, sums, transposes, scalings and symmetry predicates of fixed-size and run-time-size matrices agree with textbook linear algebra, the determinant is multiplicative, and the inverse of every well-conditioned square matrix times the matrix is the identity. Sorting the rows of a matrix yields a permutation of its rows in lexicographic order of the requested columns, and an incompatible or singular operand is never silently turned into a wrong result.",
  ["inputs"], "every matrix of size 1-8 with well-conditioned entries (including ones that need row exchanges), every sort-column range, fixed and dynamic storage",
  "Tests invert one or two literal matrices without pivoting and sort one small matrix; the laws quantify over all matrices.",
  ["src/core/math/matrix/Static.hpp", "src/core/math/matrix/Dynamic.hpp", "src/core/math/matrix/Matrix.hpp"],
  [("LU inversion", "src/core/math/matrix/Static.hpp invert; Dynamic.hpp invert"), ("row quick-sort", "src/core/math/matrix/Matrix.hpp sortRows")])

p("C03", "Polynomial algebra and the simplex bases built on it are exact",
  "Addition, multiplication, scaling and differentiation of multivariate polynomials commute with evaluation at every point. The Lagrange basis of every line, triangle and tetrahedron order that the library offers takes the value 1 at its own node and 0 at the others and sums to 1 everywhere, its quadrature weights are the integrals of the basis, nodes on a face are exactly those whose opposite simplex coordinate is zero, and derivatives match those of the basis.",
  ["inputs", "configurations"], "every polynomial of up to 4 variables and small degrees, every point, every supported simplex dimension and order",
  "Existing tests check counts and totals for a few orders; evaluation identities over all polynomials and points are never sampled.",
  ["src/core/math/function/Polynomial.hpp", "src/core/math/simplex/Line.hpp", "src/core/math/simplex/Triangle.hpp", "src/core/math/simplex/Tetrahedron.hpp", "src/core/math/simplex/Simplex.cpp"],
  [("monomial merge and removal", "src/core/math/function/Polynomial.hpp"), ("Lagrange construction by products", "src/core/math/simplex/*.hpp constructor"), ("Silvester polynomials and Cartesian expansion", "src/core/math/simplex/Simplex.cpp")])

p("C04", "Excitation functions and their spectra are mathematically consistent",
  "A Gaussian pulse has the requested spread and delay, peaks at its delay, is symmetric about it, and its bandwidth constructor gives a pulse that starts from a negligible value and keeps nine tenths of its energy below the requested frequency; a band-limited pulse is finite and continuous at every time. A tabulated function returns the table value at every table point, interpolates linearly between consecutive points, holds the end values outside, and reading a table from a file gives the same function as building it from the same pairs; discrete Fourier transforms are linear and match the defining sum.",
  ["inputs"], "every positive spread, delay, frequency band and time, every table of up to 40 strictly increasing abscissae in memory or in a text file, every sampled signal",
  "Tests evaluate single parameter sets; interpolation, file reading and transform linearity range over all tables and signals.",
  ["src/core/math/function/Gaussian.cpp", "src/core/math/function/BandLimited.h", "src/core/math/function/LinearInterpolation.hpp", "src/core/math/util/SpaceGenerator.h"],
  [("closed forms", "src/core/math/function/Gaussian.cpp"), ("map lower/upper bound interpolation", "src/core/math/function/LinearInterpolation.hpp"), ("file reader", "src/core/math/function/LinearInterpolation.hpp initFromFile")])

p("C05", "Local frames and spherical angles are rigid, invertible changes of frame",
  "Converting vectors and tensors from a local frame to the global one is a rigid change of frame: the transformation matrix is the rotation by the frame's Euler angles and undoes the conversion when transposed, lengths, angles and orientation are preserved, the local null vector maps to the frame's origin, and for a frame without rotation the conversion is the plain translation. Spherical coordinates of every non-zero vector lie in their canonical ranges and convert back to that vector, and fields given in spherical components keep their length and components in the right-handed spherical basis.",
  ["inputs"], "every set of Euler angles and origin, every vector, every angle",
  "The tests use one or two fixed frames; invertibility must hold for every frame and vector.",
  ["src/core/math/axis/Local.cpp", "src/core/math/vector/Spherical.h", "src/core/math/Constants.h"],
  [("Euler rotation", "src/core/math/axis/Local.cpp"), ("acos/atan2 conversion", "src/core/math/vector/Spherical.h")])

p("C06", "Axis-aligned boxes behave as closed point sets",
  "Intersection, union and inclusion of boxes, point membership, bounding, lengths, dimensionality (point, line, surface, volume), bounds, corner positions and scaling agree with the interpretation of a box as the closed set of points between its corners. Cutting a box at any list of coordinates yields sub-boxes that cover it exactly without overlapping interiors, and boxes that do not touch never intersect.",
  ["inputs"], "every pair of boxes in 1-3 dimensions over reals and integers, including degenerate, touching, nested and unbounded ones, and every cut list",
  "The tests check a few literal boxes; set semantics range over every relative position of two boxes.",
  ["src/core/geometry/Box.h", "src/core/geometry/Box.hpp"],
  [("corner-wise comparison", "src/core/geometry/Box.hpp"), ("recursive chop", "src/core/geometry/Box.hpp chop")])

p("C07", "A grid locates every point in the cell that contains it",
  "For every grid and every point inside its domain, the reported cell contains the point, the fraction within the cell is in [0,1), and cell plus fraction gives back the point; points outside are reported as such. The positions, steps, numbers of cells and bounding boxes a grid reports are mutually consistent, strictly increasing, and equal to the ones it was built from.",
  ["inputs", "configurations"], "every rectilinear grid (uniform, stretched, offset origin, one cell to dozens, 1-3 dimensions) and every point: interior, on lines, on both boundaries, outside",
  "Tests locate a few points in one uniform grid; the inverse relation quantifies over grids and points.",
  ["src/core/geometry/Grid.h", "src/core/geometry/Grid.hpp"],
  [("cell search", "src/core/geometry/Grid.hpp getCellPair, getCell, isInto"), ("constructors", "src/core/geometry/Grid.hpp")])

p("C08", "Building and padding grids keeps them valid and preserves the inner lines",
  "A grid built from a box with a number of cells or a step covers exactly the box with equal cells, and one that cannot fit is rejected or covers the whole box as documented. Enlarging a grid by a padding and a mesh size keeps every original line, adds lines only outside the original extent on the padded sides, and reaches the requested padding to within one cell; the new cells repeat the boundary step when the mesh size is not larger than it (or zero), and otherwise grow in a constant ratio from it and end in a cell of the requested size; scaling a grid scales every line.",
  ["inputs", "configurations"], "every box, cell count, step, pair of paddings and pair of mesh sizes, per axis and bound",
  "Only one enlargement configuration is tested; the relation between padding, mesh size and boundary step ranges over all of them.",
  ["src/core/geometry/Grid.hpp"],
  [("enlarge / enlargeBound", "src/core/geometry/Grid.hpp"), ("constructors from box", "src/core/geometry/Grid.hpp"), ("applyScalingFactor", "src/core/geometry/Grid.hpp")])

p("C09", "Structured positions are equivalent to physical positions",
  "Turning a grid-line position, a relative position or a conformal position into physical space and back returns the original, and turning a physical point into a grid position loses nothing that the grid resolves. A position given by a cell and a part of it stays the same point when its part is brought below one, and comes to a side, edge or node by the shortest way. Relative and conformal coordinates keep their offset, edge direction and length, and two coordinates are equal exactly when kind, identifier and position agree.",
  ["inputs"], "every grid, every grid-line index and every relative or edge offset inside the domain",
  "Coordinate tests build single literals; the relative coordinate test is not compiled at all.",
  ["src/core/geometry/coordinate/Coordinate.hpp", "src/core/geometry/coordinate/Relative.cpp", "src/core/geometry/coordinate/Conformal.cpp", "src/core/geometry/Grid.hpp"],
  [("toStructured / toUnstructured", "src/core/geometry/coordinate/*.cpp"), ("getPos with fractions", "src/core/geometry/Grid.hpp")])

p("C10", "Coordinate sets index every coordinate by identifier and by position",
  "After every sequence of insertions, removals, copies, assignments and scalings, looking up a coordinate by identifier or by position finds exactly the coordinates currently present, inserting a position that was already there creates no duplicate unless overlaps are asked for, and newly assigned identifiers are unique. Removing one coordinate never affects the lookup of another, and copying a set gives independent coordinates with the same identifiers and positions.",
  ["histories"], "every history of up to 40 operations over add (by value, by position, batch), remove, lookup, copy, assign and scale, with coincident and nearly coincident positions",
  "Unit tests exercise single calls; the two indices can only go out of step along a history.",
  ["src/core/geometry/coordinate/Group.h", "src/core/geometry/coordinate/Group.hpp", "src/core/group/Identifiable.hpp"],
  [("position index multiset", "src/core/geometry/coordinate/Group.hpp"), ("identifier map", "src/core/group/Identifiable.hpp")])

p("C11", "Identified object collections stay consistent along every history",
  "After every sequence of insertions with given or automatic identifiers, removals by position or identifier, copies, moves and assignments, a collection returns for each identifier exactly the object that was stored under it, in insertion order, and throws or reports absence for the others; layers are also found by name, the first of a name. Automatic identifiers are unique and larger than any present, inserting a duplicate identifier is rejected, type filters return exactly the members of that type in order, and copies are independent.",
  ["histories"], "every history of up to 40 operations on collections of several object kinds, including failing operations",
  "Tests exercise single insertions or removals; index corruption needs a remove followed by lookups, or an assignment onto a non-empty target.",
  ["src/core/group/Group.hpp", "src/core/group/Identifiable.hpp", "src/core/group/Printable.h"],
  [("identifier map with positions", "src/core/group/Identifiable.hpp"), ("type filters", "src/core/group/Group.hpp getOf")])

p("C12", "Element queries return exactly the matching elements",
  "Selecting elements by material, layer, both, type, dimension, identifier or location inside a box returns every element that satisfies the condition, once, and nothing else; bounding boxes enclose every vertex tightly, and the nearest vertex to a point really is a nearest one. Reassigning coordinates, layers or materials, or removing a material, changes exactly the references concerned and nothing about the geometry.",
  ["inputs", "histories"], "every mixture of node, line, surface and volume elements with arbitrary (also absent) materials and layers, every query and reassignment",
  "Tests build one or two elements; completeness and exclusion range over all mixtures.",
  ["src/core/geometry/element/Group.hpp", "src/core/geometry/element/Element.h"],
  [("predicate filters", "src/core/geometry/element/Group.hpp"), ("reassignPointers", "src/core/geometry/element/Group.hpp")])

p("C13", "Element areas, volumes, normals and containment match the geometry",
  "Lengths, areas, volumes, normals and face data of line, triangle, quadrilateral, tetrahedron and hexahedron elements equal those computed directly from the vertices, are invariant under translation and rotation, and scale with the right power under scaling. Planarity, rectangularity, inside/outside tests and sharing of faces agree with the vertices and not with the order they are given in, flat tetrahedra and open polyhedra are refused, and two elements are equal exactly when kind, identifiers, references and coordinates agree.",
  ["inputs"], "every non-degenerate element of each kind in arbitrary position and orientation",
  "Only counts and a couple of axis-aligned cases are tested; metric invariants range over all positions and orientations.",
  ["src/core/geometry/element/Triangle3.cpp", "src/core/geometry/element/Quadrilateral4.hpp", "src/core/geometry/element/Tetrahedron4.cpp", "src/core/geometry/element/Hexahedron8.hpp", "src/core/geometry/element/Line2.hpp"],
  [("vertex formulae", "src/core/geometry/element/*")])

p("C14", "Meshes convert between structured and physical form without loss",
  "Converting a mesh whose vertices lie on grid lines to structured form and back yields the same elements: same kinds, identifiers, layers, materials and vertex positions, and converting back again changes nothing. Elements that do not fit the grid are dropped whole, never distorted, and the converted mesh shares no object with the source.",
  ["inputs", "configurations"], "every grid and every set of elements on, and off, its lines",
  "No test converts a mesh in both directions over arbitrary grids.",
  ["src/core/geometry/mesh/Structured.cpp", "src/core/geometry/mesh/Unstructured.cpp", "src/core/geometry/mesh/Geometric.cpp"],
  [("getMeshUnstructured / getMeshStructured", "src/core/geometry/mesh/*.cpp"), ("element toStructured / toUnstructured", "src/core/geometry/element/*")])

p("C15", "A mesh owns consistent copies of its coordinates, layers and elements",
  "Copying or assigning a mesh produces one with equal content whose elements refer only to its own coordinates and layers, so that changing, scaling or destroying either mesh never affects the other. Scaling a mesh scales its grid and every coordinate once, keeps identifiers and connectivity, and the reported bounding box always encloses exactly the current geometry.",
  ["histories"], "every history of copy, assignment, scaling, addition and destruction over meshes with shared coordinates, layers and materials",
  "Tests copy one literal mesh; dangling references appear only when the source dies or changes after the copy.",
  ["src/core/geometry/mesh/Geometric.cpp", "src/core/geometry/mesh/Unstructured.cpp", "src/core/geometry/mesh/Structured.cpp"],
  [("clone and reassignPointers", "src/core/geometry/mesh/*.cpp")])

p("C16", "Connectivity graphs describe adjacency exactly",
  "The connected components of a graph built from elements partition the elements, two elements are in one component exactly when a chain of shared vertices links them, and adjacency is symmetric. The connectivity of a surface or volume mesh pairs two faces exactly when they have the same vertices, is reciprocal, and reports a face as a boundary exactly when no other element has it.",
  ["inputs"], "every set of line, surface or volume elements up to dozens, including isolated ones, branches and cycles",
  "Tests build one or two tiny meshes; symmetry and completeness range over all topologies.",
  ["src/core/geometry/graph/Vertices.hpp", "src/core/geometry/graph/Connectivities.cpp", "src/core/geometry/graph/Graph.hpp"],
  [("adjacency construction", "src/core/geometry/graph/*.hpp"), ("connected component walk", "src/core/geometry/graph/Vertices.hpp")])

p("C17", "Material models keep their parameters and derived electrical quantities",
  "Every material, surface, wire, gap, connector and boundary model reports exactly the parameters it was built with, is classified consistently by its kind queries, and derives impedance, admittance, absolute constants, tensors in space, static conductivity and vacuum, classic or dispersive status from them by the defining formulae. Copying or assigning a model gives an independent model with the same parameters, and what a model cannot have (a magnetic conductivity in a dispersive material, null relative constants in a layer, several sets of fitting options, a missing file or one of another kind) is rejected.",
  ["inputs", "configurations"], "every kind of model and every parameter value in its domain and on its borders, including zero conductivity and unit permittivity",
  "Tests cover one classic material; formulae and kind queries range over all kinds and parameters.",
  ["src/core/physicalModel/volume/Classic.cpp", "src/core/physicalModel/volume/Dispersive.cpp", "src/core/physicalModel/wire/Wire.cpp", "src/core/physicalModel/multiport/RLC.cpp", "src/core/physicalModel/surface/Multilayer.cpp", "src/core/physicalModel/Group.hpp"],
  [("constructors and copy constructors", "src/core/physicalModel/*/*.cpp")])

p("C18", "A plane wave is transverse and consistent with its definition",
  "For every admissible definition, by vectors or by angles, the plane wave has unit propagation direction and polarisation orthogonal to it, its magnetic field is the cross product of direction and electric field divided by the vacuum impedance, and both definitions of the same wave agree. Non-orthogonal or null vectors are rejected, and randomised waves have the requested count and delay range.",
  ["inputs"], "every pair of direction and polarisation vectors or angles, including scaled, opposite and axis-aligned ones, and every time",
  "Tests use one direction each; orthogonality and agreement range over all directions.",
  ["src/core/source/PlaneWave.cpp", "src/core/source/PlaneWave.h"],
  [("init_ validation", "src/core/source/PlaneWave.cpp"), ("angle conversion", "src/core/source/PlaneWave.cpp")])

p("C19", "Port mode profiles satisfy the mode equations and port geometry",
  "The field profile a rectangular waveguide port reports vanishes tangentially on its walls, is antisymmetric or symmetric about the mid-planes as its mode numbers say, and is divergence-free for TE and curl-free for TM modes at every interior point. A coaxial port's voltage profile is radial, falls off as one over the distance to its axis and integrates to one volt between its conductors, its current profile is azimuthal and integrates to one ampere around the axis, wherever the axis is placed, and the geometry a port reports is that of its elements.",
  ["inputs"], "every mode pair, port size and position, every pair of radii and axis position, every point between the conductors",
  "Tests evaluate a few points of one mode; the mode equations quantify over modes, sizes and points.",
  ["src/core/source/port/WaveguideRectangular.cpp", "src/core/source/port/TEMCoaxial.cpp", "src/core/source/port/Waveguide.cpp"],
  [("getWeight", "src/core/source/port/*.cpp")])

p("C20", "Sources keep their excitation, elements and kind through copies",
  "Every source (plane wave, generator, line source, ports) reports the excitation, kind, hardness and elements it was built from, and a copy behaves identically for every time and stays valid after the original is destroyed. An excitation read from a file takes the values of the samples in it and is linear in between, one written to a file takes the value of the original at every sampled time, and two excitations compare equal exactly when they are defined alike.",
  ["inputs", "histories"], "every source kind, hardness, type and excitation, every order of copying and destruction",
  "Tests construct one source; faithful copying quantifies over kinds, excitations and destruction orders.",
  ["src/core/source/Source.cpp", "src/core/source/Generator.cpp", "src/core/source/OnLine.cpp", "src/core/source/magnitude/Magnitude.cpp", "src/core/source/magnitude/Numerical.cpp"],
  [("clone and copy constructors", "src/core/source/*.cpp")])

p("C21", "Output requests keep their domain, kind and target through copies",
  "Every output request reports the name, field kind, elements, direction, skip and angular range it was built with, and its time and frequency domain reports exactly what was asked: which domains are active, their limits, steps, sweep type and transfer function. Copies are independent of the original, domains compare equal exactly when all their parameters do, bulk currents over elements with a material are refused, and the points of a sweep go from its first to its last value in the requested spacing.",
  ["inputs", "histories"], "every combination of time and frequency domains, kinds and parameters",
  "No test constructs output requests with varied domains.",
  ["src/core/outputRequest/Domain.cpp", "src/core/outputRequest/OutputRequest.hpp", "src/core/outputRequest/BulkCurrent.cpp", "src/core/outputRequest/FarField.cpp"],
  [("domain state flags", "src/core/outputRequest/Domain.cpp"), ("clone", "src/core/outputRequest/*.h")])

p("C22", "Copying a project gives an equal and fully independent project",
  "Copying or assigning complete project data yields a project with the same solver settings, materials, mesh, sources and output requests, with every reference between them pointing inside the copy, and no parameter altered by the copying. Modifying, scaling or destroying the original afterwards has no effect on the copy, and vice versa.",
  ["histories"], "every generated project (any subset of its parts present) and every history of copies, assignments (including onto itself and onto non-empty projects) and destruction",
  "Tests never copy a project with sources and requests and then destroy the original.",
  ["src/core/Data.cpp"],
  [("copy constructor and assignment", "src/core/Data.cpp"), ("re-targeting of element groups", "src/core/source/*, src/core/outputRequest/*")])

p("C23", "Reading a JSON project yields exactly the project that was written",
  "Every well-formed JSON project of the supported version is read into data with exactly the solver options, materials, layers, coordinates, elements, grid, connectors, sources and output requests written in it: same counts, identifiers, names, parameters (angles converted from degrees), references and geometry, with the global scaling factor applied once. Formatting (whitespace, key order, number notation) does not matter.",
  ["inputs", "programs"], "every project document of the grammar the GiD templates produce, with any number of entries of every kind",
  "Tests only require that five sample files are read without an exception and check no content.",
  ["src/parser/json/Parser.cpp", "src/parser/json/Parser.h", "src/core/parser/Parser.cpp", "gui/gid/semba.gid/semba.bas"],
  [("section readers", "src/parser/json/Parser.cpp"), ("scaling", "src/core/parser/Parser.cpp postReadOperations")])

p("C24", "Malformed JSON projects are rejected cleanly, never misread",
  "Any input stream, however damaged, is either read or rejected; it never crashes, hangs or corrupts memory. Texts that are no complete JSON document and documents of a missing or other version are rejected with an exception. A document with an unknown material, wire, connector, surface, source, definition, type, hardness, shape, excitation, request or direction label, without a mandatory field, with a field of the wrong kind (text for a number, a number for text, a list, an object or nothing for either), with an ill-formed vector, box, coordinate or element, with a grid without cells or finite lines in some direction, with a plane wave whose layer is no volume, or with a reference to a material, layer, coordinate or element that does not exist is never accepted as if it were complete: it is rejected with an exception or yields a project without a mesh, sources and requests. Whatever is accepted is consistent: all its references stay within it.",
  ["inputs"], "every mutation (deletion, type change, label change, dangling reference, byte damage, truncation) of a well-formed document",
  "Every existing parser test reads a valid file.",
  ["src/parser/json/Parser.cpp", "src/parser/json/Parser.h"],
  [("exceptions on lookup", "src/parser/json/Parser.cpp")])

p("C25", "Reading an STL file yields exactly its triangles and solids",
  "Every ASCII STL text yields one layer per solid, in order and with its name (the first word of its line), one triangle per facet, in order and in the layer of its solid, with exactly the vertex positions written; facets that meet at a position share its coordinate. A facet without three vertices is rejected, never turned into a triangle. White space, line endings, number notation, normals and empty solids do not matter, and damaged files never crash the reader.",
  ["inputs"], "every STL text with up to several solids and dozens of facets with shared vertices, and every truncation or damage of it",
  "Tests read two files and check only totals.",
  ["src/parser/stl/Parser.cpp"],
  [("two pass token reader", "src/parser/stl/Parser.cpp read")])

p("C26", "A VTK export contains exactly the project's geometry",
  "Every mesh exported to VTK can be read back: each material-layer pair (each layer when there are no materials), source, output request, boundary and grid that has elements becomes one data set holding exactly its elements, under its name with reserved characters replaced, in a file of its own even when names coincide, with the right cell kinds, vertex positions to single precision, connectivity and offsets, declared counts match the data, and every written data set is listed once in the collection. Exporting leaves the project unchanged.",
  ["inputs", "configurations"], "every project with structured or unstructured mesh, any mixture of elements, layers, materials, sources, requests and boundaries",
  "No test writes and reads back an export.",
  ["src/exporter/vtk/Exporter.cpp", "src/core/exporter/Exporter.cpp"],
  [("writeMesh_/writeFile_", "src/exporter/vtk/Exporter.cpp")])

p("C27", "A GiD export contains exactly the project's geometry",
  "Every mesh exported to GiD post-process form can be read back: each material-layer pair, source and output request becomes mesh blocks holding exactly its points, two-node lines, triangles, quadrilaterals, tetrahedra and hexahedra with the right vertex positions, to single precision and with the scaling factor of the project undone, node and element numbers are never reused, within and across exports of a process, and all node references resolve to the positions of the element's vertices. Structured exports also contain the grid lines and the boundary faces under their boundary's name. Exporting leaves the project unchanged, so that exporting again gives the same geometry.",
  ["inputs", "histories"], "every project with structured or unstructured mesh and several exports in one process",
  "No test exercises the exporter.",
  ["src/exporter/gid/Exporter.cpp", "src/core/exporter/Exporter.cpp"],
  [("node and element counters", "src/exporter/gid/Exporter.cpp")])

p("C28", "Command lines are parsed to exactly the declared options and values",
  "For every declared set of options, switches, positionals and groups and every command line, the parsed result contains exactly the given values, typed as declared, and the defaults for the options left out; what was not declared is refused, or returned unchanged and in order, options before plain values. Short, long, abbreviated and joined forms of an option are equivalent and the order of distinct options does not matter. A missing required option, a missing or ill-typed value, a value outside the allowed choices, a repeated single-valued option, an ambiguous abbreviation or the use of two members of an exclusive group, options or positionals, is reported with an error; a repeated declaration is refused and leaves the others working; parsing again, also after an error, gives the same result; and the help text lists every declared argument with the program name, defaults and choices filled in.",
  ["programs", "inputs"], "every declaration set of up to six options and every command line over it, valid or with one fault",
  "Tests parse a few literal command lines.",
  ["src/core/argument/Parser.cpp", "src/core/argument/GroupBase.cpp", "src/core/argument/Group.cpp", "src/core/argument/Option.h", "src/core/argument/Position.h", "src/core/argument/Argument.cpp"],
  [("tokenising", "src/core/argument/Parser.cpp"), ("defaults and requirements", "src/core/argument/Argument.cpp, GroupBase.cpp")])

p("C29", "Settings trees store and return typed values losslessly",
  "A settings tree built by any sequence of insertions, replacements, removals and moves returns under each name or index exactly the value last stored there, with its nesting and order, and refuses reads of absent names or of values that are not of the requested type. A number, boolean or text stored with a type is read back with the same value, and text is converted to integers, reals, booleans or tuples exactly when the whole text is such a value. The text a tree is shown as has every name and value in order, and what is printed afterwards is formatted as before.",
  ["histories", "inputs"], "every history of up to 40 tree operations and every text",
  "Tests cover a few members; removal, replacement and conversion faults need histories and arbitrary text.",
  ["src/core/argument/Object.h", "src/core/argument/Object.hpp", "src/core/argument/StringParser.h"],
  [("name index", "src/core/argument/Object.h"), ("stream conversion", "src/core/argument/StringParser.h")])

p("C30", "Solver and mesher options reflect exactly the settings given",
  "Applying any subset of the recognised settings sets exactly those options to the given values and leaves every other at its default, in any order, and an unrecognised mesher, mode or boundary label is rejected. Final time, time step and number of steps are mutually consistent, and the derived solver argument text contains exactly the options that differ from the defaults. The command line of the mesher takes exactly its four options.",
  ["inputs", "configurations"], "every subset of recognised settings with every value, and every label",
  "One solver options test and no mesher options test exist.",
  ["src/solver/Options.cpp", "src/mesher/Options.cpp", "src/core/solver/Info.h"],
  [("set", "src/solver/Options.cpp, src/mesher/Options.cpp")])

p("C31", "Project file names decompose, compose and relate consistently",
  "For every project path, folder, base name, extension and project name decompose it consistently and compose back to it, and setting a new file name changes every derived name. The path of a file relative to a folder above it, resolved from that folder, is the file itself. Existence and kind queries and full paths agree with the file system; creating or removing a folder, whatever characters its name has, changes exactly that folder; text written to a project file is read from it; and an executable project file is run with exactly the arguments given, while one that cannot be executed is refused.",
  ["inputs", "histories"], "every path of up to four components with dots, spaces and missing extensions, inside a scratch directory",
  "The only file system test is excluded as unstable.",
  ["src/core/filesystem/Project.cpp", "src/core/filesystem/Project.h"],
  [("string decomposition", "src/core/filesystem/Project.cpp")])

p("C32", "Grouping of wires partitions wire segments into consistent polylines",
  "Grouping the wire segments of a mesh assigns every segment to exactly one wire, every wire is a connected, unbranched chain of segments of one layer, one wire material and one direction, ended by the connectors that point to its ends, and two segments belong to one wire exactly when such a chain links them without passing a junction of three or more segments or a change of layer, material or direction. The polyline, the end connections and the direction flags of each wire agree with the geometry of its segments, and a connector that ends no wire is refused.",
  ["inputs"], "every arrangement of up to a few dozen wire segments with branches, loops, several materials, layers and point connectors",
  "No test exercises wire grouping.",
  ["src/core/util/wire/Group.hpp", "src/core/geometry/graph/Vertices.hpp"],
  [("graph of vertices", "src/core/util/wire/Group.hpp")])

p("C33", "Usage and help texts describe exactly the declared command line",
  "The usage text names the program and then every declared positional, option and child group exactly once and in the order of declaration, each with the identifier it is given with and the names of its values: what may be left out stands in brackets, what may be repeated is followed by its repetition, and the members of an exclusive group are separated by bars inside brackets, or inside parentheses if one of them is required. The help text is the usage, the description, a section of positionals, one of options and one per group, and the epilog, and lists under each section exactly its arguments, each with its own help, where the program name, the default values and the choices are filled in. Texts are wrapped to the width of the console they are printed on, or to 80 columns elsewhere: no line is longer unless a single word is, lines are full, and continuation lines start in the column of their text. A refused command line prints the usage on standard output and the program name and the reason on standard error.",
  ["programs", "inputs"], "every tree of up to forty declared arguments in nested groups, every help text, and every console width",
  "No test prints a usage or a help text.",
  ["src/core/argument/Formatter.cpp", "src/core/argument/Formatter.h", "src/core/argument/Parser.cpp", "src/core/argument/GroupBase.cpp", "src/core/argument/Argument.cpp", "src/core/argument/OptionBase.cpp"],
  [("usage grammar and line layout", "src/core/argument/Formatter.cpp"), ("messages of refused lines", "src/core/argument/Parser.cpp")])

p("C34", "Identifiers behave as the numbers they stand for",
  "An identifier of coordinates, elements, layers, models or anything else keeps the number it was made with, zero if it was made without one, through copies and assignments. Identifiers compare, order, add, count up (before or after use), print and read exactly as their numbers, over the whole range of numbers, so that they serve as keys. What carries an identifier keeps it until it is set again, a copy has the same one and changes independently, and two carriers are equal as identified objects exactly when their identifiers are.",
  ["inputs", "histories"], "every history of up to 25 operations on up to four identifiers of any number, and every kind of identified object",
  "The identifier test holds a handful of numbers.",
  ["src/core/class/Identification.hpp", "src/core/class/Identification.h", "src/core/class/Identifiable.hpp"],
  [("value semantics", "src/core/class/Identification.hpp"), ("carriers", "src/core/class/Identifiable.hpp")])

p("C35", "Progress is shown on one line that fits the console, and only there",
  "On a console the progress of a job of non-zero size is one line, written over itself and ended with the job, that never is longer than the console is wide, whatever its width and wherever the input comes from. Where there is room it shows, in this order, the indentation, the name (cut to its column with dots), the amount done and the whole with the unit that scales them, a time, a bar that is empty at the beginning and full at the end, and the share from 0 % to 100 %. Elsewhere only the indented name is printed, and nothing for a job without size; what is printed afterwards is formatted as before.",
  ["inputs", "histories"], "every name, size, indentation, sequence of steps and console width of up to 200 columns",
  "Tests never have a console.",
  ["src/core/util/ProgressBar.cpp", "src/core/util/ProgressBar.h"],
  [("line layout", "src/core/util/ProgressBar.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
