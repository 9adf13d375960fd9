REAL = 'Every obligation is discharged for all inputs over exact real arithmetic (floating-point rounding is outside the proof; the native code is additionally run on samples with a tolerance).'
G = 'src/Caribou/Geometry/'
T = 'src/Caribou/Topology/'
GR = REAL + ' Subdivisions range from 1 to 2^20 per axis (so that machine integers do not overflow), without unrolling over them.'
PROPS = [
 dict(id='C01', title='Shape functions are the Lagrange basis of every element',
  statement='For every element type and order and at every point of the reference space, the values of the shape functions are those of the unique Lagrange basis of the element: one at their own node and zero at the others, summing to one, and reproducing every field of the element\'s interpolation space exactly.',
  over=['inputs', 'configurations'], q='all local coordinates, all element types, orders and space dimensions',
  why='Tests evaluate the shape functions at a handful of points (mostly nodes and Gauss points) for a subset of the elements; a coefficient error that vanishes there is invisible.',
  files=[G + 'Segment.h', G + 'Triangle.h', G + 'Quad.h', G + 'Tetrahedron.h', G + 'Hexahedron.h', G + 'RectangularQuad.h', G + 'RectangularHexahedron.h', G + 'Element.h'],
  mech=[('Element::L / get_L', 'get_L in each element header')],
  note=REAL + ' The basis is derived independently (inverse Vandermonde of the reference nodes).'),
 dict(id='C02', title='Shape function derivatives are the exact gradients',
  statement='For every element type and order and at every local point, the matrix of shape function derivatives is exactly the gradient of the shape functions, component by component, so its rows sum to zero and derivatives of interpolated fields are exact.',
  over=['inputs', 'configurations'], q='all local coordinates, all element types, orders and space dimensions',
  why='Tests check derivatives numerically at few points or not at all for some quadratic elements.',
  files=[G + 'Segment.h', G + 'Triangle.h', G + 'Quad.h', G + 'Tetrahedron.h', G + 'Hexahedron.h', G + 'RectangularQuad.h', G + 'RectangularHexahedron.h', G + 'Element.h'],
  mech=[('Element::dL / get_dL', 'get_dL in each element header')], note=REAL),
 dict(id='C03', title='World mapping, Jacobian, centre and interpolation agree with the nodes',
  statement='For any node positions, the world position of a local point is the shape-function-weighted sum of the node positions, the Jacobian is its exact derivative, the centre is the image of the barycentre of the reference element, and interpolation of scalar or vector nodal values is the same weighted sum. Reading back nodes, individually or as a table, returns the positions the element was given or that its centre, size and rotation imply.',
  over=['inputs', 'configurations'], q='all node positions (or centre, size, rotation for rectangular elements), local points and nodal values',
  why='Tests use one or two placements per element and few points; an error in one entry of the Jacobian or for one placement or rotation survives.',
  files=[G + 'Element.h', G + 'BaseSegment.h', G + 'BaseTriangle.h', G + 'BaseQuad.h', G + 'BaseTetrahedron.h', G + 'BaseHexahedron.h', G + 'BaseRectangularQuad.h', G + 'BaseRectangularHexahedron.h'],
  mech=[('world_coordinates, jacobian, interpolate', G + 'Element.h'), ('world_coordinates(rectangular)', G + 'BaseRectangularHexahedron.h'), ('get_node/get_nodes/get_center', 'element headers')],
  note=REAL + ' Calls to the shape functions are replaced by the contracts of C01 and C02, which this check re-verifies.'),
 dict(id='C04', title='Local coordinates invert the world mapping',
  statement='On straight-sided (affine) and rectangular elements the local coordinates of the image of a local point are that point (or the starting point when it already lies within the absolute tolerance). On every other element the result is the first Newton iterate from the starting point whose residual drops under the requested relative tolerance, or the last iterate allowed by the iteration limit; rectangular hexahedra contain exactly the points of their closed box.',
  over=['inputs', 'configurations'], q='all non-degenerate elements, world points, starting points and tolerances; iteration limits 1..3 (and the default 5)',
  why='Tests invert a few Gauss points on one element each and never observe the number of iterations, the stopping rule or skewed elements.',
  files=[G + 'Element.h', G + 'BaseRectangularHexahedron.h'],
  mech=[('local_coordinates (Newton-Raphson)', G + 'Element.h'), ('local_coordinates (closed form)', G + 'BaseRectangularHexahedron.h')],
  note=REAL + ' The element map is abstracted by the contract of C03 (re-verified here); the iteration limit is one of the constants 1, 2, 3 and the default 5, everything else is unbounded.'),
 dict(id='C05', title='Inside/outside test in local coordinates is exact',
  statement='An element contains a local point exactly when the point lies in its reference domain (the square, cube or interval from -1 to 1, or the unit simplex) enlarged by the given tolerance, and in no other case.',
  over=['inputs', 'configurations'], q='all local points and tolerances, all element types',
  why='Tests probe a few interior and exterior points; a wrong comparison on one axis only shows for points outside through that face alone.',
  files=[G + 'BaseSegment.h', G + 'BaseTriangle.h', G + 'BaseQuad.h', G + 'BaseTetrahedron.h', G + 'BaseHexahedron.h', G + 'BaseRectangularQuad.h', G + 'BaseRectangularHexahedron.h', G + 'Element.h'],
  mech=[('contains_local / get_contains_local', 'Base*.h')], note=REAL),
 dict(id='C06', title='Quadrature rules integrate exactly to the advertised degree',
  statement='The quadrature points of every element lie in its reference domain, their weights sum to its measure, and the rule integrates exactly all polynomials up to the degree of the rule; the static number of points equals the number actually provided.',
  over=['inputs', 'configurations'], q='all polynomials up to the degree of the rule, all element types',
  why='Tests integrate one polynomial per element; weights or points that cancel there go unnoticed.',
  files=[G + 'Segment.h', G + 'Triangle.h', G + 'Quad.h', G + 'Tetrahedron.h', G + 'Hexahedron.h', G + 'RectangularQuad.h', G + 'RectangularHexahedron.h'],
  mech=[('gauss_nodes / get_gauss_nodes', 'element headers')],
  note='The tables are read from the running code through the IR and every monomial of the rule\'s degree is integrated in exact rational arithmetic with a tolerance of 1e-12 on the decimal constants.'),
 dict(id='C07', title='Faces and edges reference the right nodes and agree with the volume',
  statement='For every element, each listed boundary face or edge names nodes lying on that side of the reference element, in an order which makes the boundary element\'s own mapping coincide with the parent\'s mapping restricted to that side and oriented outward consistently; together they cover the boundary once.',
  over=['inputs', 'configurations'], q='all element types, all their boundary entities, all node positions and points of the boundary element',
  why='Tests check counts and a few entries; a swapped mid-edge node only shows on curved geometry.',
  files=[G + 'Triangle.h', G + 'Quad.h', G + 'Tetrahedron.h', G + 'Hexahedron.h', G + 'RectangularQuad.h', G + 'RectangularHexahedron.h', G + 'Element.h'],
  mech=[('get_boundary_elements_nodes, edges tables', 'element headers'), ('boundary_element', 'Base*.h')], note=REAL),
 dict(id='C08', title='Every way of constructing an element yields the same geometry',
  statement='Elements built by default, from a list of nodes, from a matrix, from a linear element, from centre, size and rotation, or by fitting a rectangle to a general quad or hexahedron have exactly the node positions those arguments imply: mid-edge nodes are midpoints, and a rectangular element fitted to a rectangular shape reproduces its centre, sizes and orientation.',
  over=['inputs', 'configurations'], q='all node positions and all constructor overloads',
  why='Tests exercise one constructor per element with axis-aligned data.',
  files=[G + 'Segment.h', G + 'Triangle.h', G + 'Quad.h', G + 'Tetrahedron.h', G + 'Hexahedron.h', G + 'RectangularQuad.h', G + 'RectangularHexahedron.h', G + 'BaseRectangularQuad.h', G + 'BaseRectangularHexahedron.h'],
  mech=[('constructors', 'element headers and Base*.h')], note=REAL + ' Rotations are parametrised by quaternions.'),
 dict(id='C09', title='Frames and normals are orthonormal and follow the surface',
  statement='The local frame of a quad or hexahedron at any local point has unit columns with the first along the first local direction, the last normal to the first two local directions (right-handed), and for hexahedra all three mutually orthogonal; normals of triangles are unit vectors perpendicular to the plane with the orientation given by the node order.',
  over=['inputs', 'configurations'], q='all node positions with non-degenerate directions and all local points',
  why='Tests evaluate frames of axis-aligned or once-rotated elements only.',
  files=[G + 'BaseQuad.h', G + 'BaseHexahedron.h', G + 'BaseTriangle.h', G + 'BaseSegment.h'],
  mech=[('frame', G + 'BaseQuad.h, BaseHexahedron.h'), ('normal', G + 'BaseTriangle.h')], note=REAL),
 dict(id='C10', title='Hexahedra intersect exactly the segments and triangles they share a point with',
  statement='A rectangular or affine hexahedron reports that it intersects a segment, or a triangle, exactly when they have at least one point in common, whether the segment or triangle crosses a face, lies inside, cuts a corner, or encloses a whole cross-section of the hexahedron without any of its edges touching it. On any other hexahedron the same holds of the segment or triangle joining the local coordinates of its vertices and the reference cube.',
  over=['inputs', 'configurations'], q='all segments and triangles; all positions, sizes, orientations and shears; linear and quadratic, rectangular and general hexahedra',
  why='Tests probe a few segments and triangles of one hexahedron; each of the separating planes and each projection axis matters only for its own family of positions.',
  files=[G + 'BaseRectangularHexahedron.h', G + 'BaseHexahedron.h'],
  mech=[('intersects, intersects_local_segment, intersects_local_polygon', G + 'BaseRectangularHexahedron.h, BaseHexahedron.h'), ('local_coordinates (contract, C04)', G + 'Element.h')],
  note=REAL + ' Segments are proved (with tolerance 0, the default): for every answer yes a common point is exhibited, for every answer no an arbitrary point of the segment is shown to be outside. Triangles are bounded: native sampling against the separating axis theorem evaluated in exact rational arithmetic, including exact contacts at representable coordinates.'),
 dict(id='G01', title='Grid numbering of nodes and cells is a bijection with coordinates',
  statement='In a 1D, 2D or 3D grid, node and cell indices number the lattice contiguously from zero with the first axis fastest: converting grid coordinates to an index and back returns the same coordinates, every index is below the reported number of nodes or cells, and these numbers are the products of the subdivisions (plus one per axis for nodes). The anchor, size and subdivisions read back are those given.',
  over=['inputs', 'configurations'], q='all subdivisions and sizes, all node and cell coordinates, dimensions 1 to 3',
  why='Tests use one grid per dimension, and check a handful of indices; a numbering that mixes axes agrees whenever the subdivisions are equal.',
  files=[T + 'Grid/Grid.h', T + 'Grid/Internal/BaseGrid.h', T + 'Grid/Internal/BaseMultidimensionalGrid.h', T + 'Grid/Internal/BaseUnidimensionalGrid.h'],
  mech=[('node_index_at / node_coordinates_at', 'BaseMultidimensionalGrid.h, BaseUnidimensionalGrid.h'), ('cell_index_at / cell_coordinates_at', 'BaseMultidimensionalGrid.h, BaseUnidimensionalGrid.h')], note=GR),
 dict(id='G02', title='Grid nodes and cells sit at the right place with the right nodes',
  statement='The node of grid coordinates (i,j,k) lies at the anchor plus (i,j,k) times the cell size, whichever way it is asked for; the cell of given coordinates or index is the element spanning exactly that box, and the node indices listed for a cell are, in the node order of the element, the indices of the grid nodes at its corners.',
  over=['inputs', 'configurations'], q='all anchors, subdivisions, sizes and all nodes and cells, dimensions 1 to 3',
  why='Tests check a few cells of one grid.',
  files=[T + 'Grid/Grid.h', T + 'Grid/Internal/BaseGrid.h', T + 'Grid/Internal/BaseMultidimensionalGrid.h', T + 'Grid/Internal/BaseUnidimensionalGrid.h'],
  mech=[('node, cell_at, node_indices_of, H', T + 'Grid/Grid.h and Internal/')], note=GR),
 dict(id='G03', title='Locating points in a grid is exact',
  statement='A grid contains a position exactly when it lies in its closed box (enlarged by the tolerance if given). For a position in the grid, the reported cell is the one whose half-open box holds it (with the upper boundary belonging to the last cell when requested), and the cells around a position are exactly, and each once, the cells of the grid whose closed box touches it; there are none for positions outside the grid.',
  over=['inputs', 'configurations'], q='all grids and all positions: inside cells, on faces, edges and corners, on the boundary and outside; dimensions 1 to 3',
  why='Tests probe a few positions of one grid; there are 27 position classes per cell in 3D, each with boundary variants.',
  files=[T + 'Grid/Internal/BaseGrid.h', T + 'Grid/Grid.h'],
  mech=[('contains, cell_coordinates_at, cell_index_containing, cells_around', T + 'Grid/Internal/BaseGrid.h')],
  note=GR + ' Positions are exactly on a grid line or at least 1e-9 of a cell from it (the code treats a sliver of 1e-19 as being on the line).'),
 dict(id='G04', title='Grid edges and faces are enumerated exactly once',
  statement='For every index below the reported number of edges or faces of a 2D or 3D grid, the returned node indices are those of one edge (two nodes adjacent along an axis) or one face (four nodes of an axis-aligned square in cyclic order) of the grid, distinct indices give distinct entities, and every edge and face of the grid has an index.',
  over=['inputs', 'configurations'], q='all subdivisions, all edges and faces, dimensions 2 and 3',
  why='Tests enumerate the edges and faces of one small grid.',
  files=[T + 'Grid/Grid.h'], mech=[('edge, face, number_of_edges, number_of_faces', T + 'Grid/Grid.h')], note=GR),
 dict(id='G05', title='The cells enclosing a set of positions form the clipped covering box, each once',
  statement='Asked for the cells enclosing one or more positions, a grid answers with no cell at all when none of the positions lies in it; otherwise with exactly the cells of the smallest axis-aligned box of cells that covers the cells around every position (positions outside the grid being clipped to it), each cell listed once.',
  over=['inputs', 'configurations'], q='all grids and all tuples of positions, inside, outside, on grid lines; dimensions 1 to 3; 1 to 3 positions',
  why='Tests use a couple of tuples in one grid; clipping matters only when one position is outside and another inside.',
  files=[T + 'Grid/Internal/BaseGrid.h'], mech=[('cells_enclosing', T + 'Grid/Internal/BaseGrid.h'), ('cells_around, cell_index_at, contains (contracts G01, G03)', T + 'Grid/Internal/BaseGrid.h')],
  note=GR + ' Proved for 1, 2, 3 positions in 1D, 1, 2 positions in 2D and 1 position in 3D, with inferred and checked loop invariants; 3 positions in 2D and 2, 3 positions in 3D (the same template) are bounded by native sampling. Positions as in G03.'),
 dict(id='H01', title='The spatial hash finds every element whose box holds a point',
  statement='After elements are added to a hash grid of any cell size, querying any position returns the index of every added element whose axis-aligned bounding box contains the position, each once, and only indices of elements whose box reaches a cell touching the position. Adding an element enters its index once in exactly the cells overlapped by its box.',
  over=['inputs', 'histories'], q='all cell sizes, all elements (1D to 3D), all positions including cell faces and corners and negative coordinates',
  why='Tests add a few elements around one position; an element missing from one cell only shows for a query in exactly that cell.',
  files=[T + 'HashGrid.h'], mech=[('add, get, HashEqual', T + 'HashGrid.h')],
  note=REAL + ' std::unordered_map and std::set are abstracted by their contracts (the key comparison is verified); get is verified after one addition (all elements) and two additions (1D, 2D); positions are on a cell face or at least 1e-9 of a cell from it; cell coordinates below 2^19.'),
 dict(id='D01', title='A mesh gives back the node positions it was built from',
  statement='A mesh built from a list or matrix of positions has that many nodes, and position(i), positions(indices) in all its overloads and the 3D node(i) return exactly the coordinates given for those nodes (missing components being zero); copies, assignments and moves keep them and are independent of the source.',
  over=['inputs', 'histories'], q='all numbers of nodes and all indices, dimensions 1 to 3, all accessors and constructors',
  why='Tests read a few nodes of small meshes through two of the accessors.',
  files=[T + 'Mesh.h'], mech=[('node, position, positions, constructors, swap', T + 'Mesh.h')], note=REAL + ' Node matrices of any length are read through uninterpreted functions; constructors and copies are verified on meshes of three nodes (bounded).'),
 dict(id='D02', title='A domain yields its elements with the right connectivity and positions',
  statement='A domain reports the number of elements and nodes per element it was given, element_indices(e) are the e-th row of its index buffer whatever its strides, element(e) is the element whose nodes are at the mesh (or supplied) positions of those indices, in order; copies and clones have the same connectivity even after the original is gone, and are attached to no mesh until they are added to one.',
  over=['inputs', 'histories'], q='all element types, index buffers, strides, element and node numbers',
  why='Tests iterate over one small mesh with contiguous indices.',
  files=[T + 'Domain.h', T + 'BaseDomain.h'], mech=[('element_indices, element, number_of_elements, constructors, clone', T + 'Domain.h')], note=REAL + ' Index and position buffers of any length are read through uninterpreted functions; copies are verified on domains of two elements (bounded).'),
 dict(id='D03', title='The registry of domains of a mesh is exact through any history',
  statement='After any sequence of additions and removals (by name or by pointer), looking a domain up by name or index finds exactly the domains added and not removed, in order of addition, each attached to the mesh; removals report whether something was removed; an addition that would duplicate a name or steal the domain of another mesh is refused. Copying, moving, assigning or swapping meshes carries the domains along, attached to the mesh that now holds them.',
  over=['histories'], q='all histories of additions, removals, copies, moves and swaps',
  why='Tests add domains and never remove any but the first, or move meshes.',
  files=[T + 'Mesh.h', T + 'BaseDomain.h', T + 'Domain.h'], mech=[('add_domain, remove, remove_domain, domain, swap', T + 'Mesh.h'), ('attach_to', T + 'BaseDomain.h')], note='Deductive on each history of three operations over three names with arbitrary connectivity (bounded in the length of the history and the number of domains); std::string and std::vector run as compiled.'),
 dict(id='B01', title='Embedded points get their element and exact interpolation',
  statement='For any point, the barycentric container returns an element that contains it together with its local coordinates there, and index -1 only when no element of the domain holds the point. For a set of embedded points, it keeps one such entry per point in order and lists exactly the points found in no element. Interpolating a nodal field gives each embedded point the sum of the nodal values of its element weighted by the shape functions at its local coordinates, leaves the values of outside points untouched, and refuses fields of the wrong size.',
  over=['inputs', 'configurations'], q='all meshes, all points, all scalar and vector fields, several element types',
  why='Tests embed a mesh in a grid and interpolate one linear field, which many wrong weights reproduce.',
  files=[T + 'BarycentricContainer.h', T + 'HashGrid.h', T + 'Domain.h', G + 'Element.h'],
  mech=[('barycentric_point, closest_elements, set_embedded_points, interpolate, constructors', T + 'BarycentricContainer.h'), ('add, get (contracts, H01)', T + 'HashGrid.h'), ('local_coordinates, contains_local, L (contracts, C04, C05, C01)', G + 'Element.h')],
  note=REAL + ' Domains of two elements and three embedded points (bounded in these sizes, symbolic in all values).'),
 dict(id='M01', title='Tensor products and deformation gradients follow their definitions',
  statement='The two symmetric dyads of a symmetric second order tensor a are, in the 6x6 compressed form with components 00,11,22,01,12,02, exactly a_ij a_kl and (a_ik a_jl + a_il a_jk)/2; the deformation gradient of an element is the identity plus the sum over its nodes of the outer product of displacement and shape function gradient.',
  over=['inputs', 'configurations'], q='all symmetric tensors; all displacements and gradients, elements of 3 to 20 nodes, both storage orders',
  why='No test covers the dyads; a swapped index in one of 36 entries only shows for tensors with all six components different.',
  files=['src/Caribou/Algebra/Tensor.h', 'src/Caribou/Mechanics/Elasticity/Strain.h'], mech=[('symmetric_dyad_1, symmetric_dyad_2', 'src/Caribou/Algebra/Tensor.h'), ('strain::F', 'src/Caribou/Mechanics/Elasticity/Strain.h')], note=REAL),
 dict(id='S01', title='Material stress and tangent are the derivatives of the energy',
  statement='For the Neo-Hookean and Saint Venant-Kirchhoff materials with any Young modulus and Poisson ratio, the energy density is the documented one, the second Piola-Kirchhoff stress is twice its derivative by the right Cauchy-Green tensor, and the 6x6 stress jacobian is twice the derivative of that stress.',
  over=['inputs', 'configurations'], q='all moduli, all symmetric invertible strain tensors',
  why='The materials are exercised only inside SOFA scenes; an inconsistent tangent still converges, slowly.',
  files=['src/SofaCaribou/Material/NeoHookeanMaterial.h', 'src/SofaCaribou/Material/SaintVenantKirchhoffMaterial.h', 'src/Caribou/Algebra/Tensor.h'], mech=[('before_update, strain_energy_density, PK2_stress, PK2_stress_jacobian', 'src/SofaCaribou/Material/')],
  note=REAL + ' The real headers are compiled against stand-ins for the SOFA base classes (Data holds its value); log is uninterpreted with its derivative rule; J is sqrt(det C) in the derivatives.'),
 dict(id='F01', title='Hyperelastic forces, energy and stiffness derive from the material',
  statement='On any mesh, the hyperelastic force field gives each integration point its weight, the absolute Jacobian determinant and the world gradients of the shape functions at rest; subtracts from the force of each node the integral of F S times the gradient of its shape function; its energy is the integral of the strain energy density; its stiffness matrix is the exact derivative of minus the force (material and geometric part, symmetric, every node pair of every element), and addDForce and addKToMatrix apply minus that matrix times the factor given, at the offset given.',
  over=['inputs', 'configurations'], q='all node positions and displacements, all quadrature data, all material responses; linear and quadratic tetrahedra, hexahedra',
  why='The field only runs inside SOFA scenes; an inconsistent stiffness still converges, slowly, and a wrong entry only shows for elements sharing nodes in opposite orders or sheared states.',
  files=['src/SofaCaribou/Forcefield/HyperelasticForcefield.inl', 'src/SofaCaribou/Forcefield/HyperelasticForcefield.h', 'src/SofaCaribou/Forcefield/CaribouForcefield.h', 'src/SofaCaribou/Topology/CaribouTopology.inl', 'src/Caribou/Mechanics/Elasticity/Strain.h'],
  mech=[('get_gauss_nodes, initialize_elements, addForce, getPotentialEnergy, assemble_stiffness, K, addDForce, addKToMatrix', 'src/SofaCaribou/Forcefield/HyperelasticForcefield.inl')],
  note=REAL + ' The real headers are compiled against stand-ins for the SOFA base classes. Meshes of one or two elements (bounded in the number of elements, symbolic in all values); the material is an arbitrary stress and symmetric tangent, and the Saint Venant-Kirchhoff material with Poisson ratio 1/4; the hexahedral stiffness is proved for one set of quadrature data.'),
 dict(id='T01', title='A traction load is integrated over the surface and never overshoots',
  statement='A traction on a surface gives each node the integral of the traction times its shape function over the rest surface, and the total load is the norm of the resultant of each increment. A constant traction acts from initialisation on; an incremental one grows by its slope every given number of steps, never beyond the prescribed traction, which it reaches exactly, and other events change nothing. Resetting restores the state after initialisation, and the forces applied are at all times those of the load reached so far.',
  over=['inputs', 'histories'], q='all tractions, slopes, waits, states of the load and surface elements; every event from every state',
  why='The component only runs inside SOFA scenes; a reset after a few increments and the last, partial increment are never exercised.',
  files=['src/SofaCaribou/Forcefield/TractionForcefield.inl', 'src/SofaCaribou/Forcefield/TractionForcefield.h'],
  mech=[('get_gauss_nodes, init, reset, handleEvent, increment_load, addForce', 'src/SofaCaribou/Forcefield/TractionForcefield.inl')],
  note=REAL + ' The real headers are compiled against stand-ins for the SOFA base classes. Each event is verified from an arbitrary state satisfying the invariant (the traction applied is a fraction in [0,1] of the prescribed one), hence for every history; surfaces of two triangles or one quad (bounded in the number of elements, symbolic in all values); initialisation is verified on one rectangle.'),
 dict(id='L01', title='Reading a VTK grid yields exactly the points and cells stored in it',
  statement='The mesh made by the VTK reader has one node per point of the grid, with the coordinates of that point along the retained axes, and one domain per supported cell type present, attached to the mesh, whose elements are exactly the cells of that type, in order, each with its node indices in the order of VTK. Cells of other types are ignored. A grid read in one or two dimensions keeps exactly the axes along which its points differ, in increasing order, and is refused when their number is not the dimension.',
  over=['inputs'], q='all coordinates and node indices; all supported and unsupported cell types; all mixtures of axes',
  why='The tests read one file per cell type and check totals such as the length or the volume, which survive permuted nodes or wrong axes.',
  files=['src/Caribou/Topology/IO/VTKReader.h', 'src/Caribou/Topology/IO/VTKReader.cpp'], mech=[('VTKReader::Read, VTKReader::VTKReader, register_element_type, mesh, extract_axes_from_3D_vectors', 'src/Caribou/Topology/IO/VTKReader.cpp')],
  note=REAL + ' The real reader is compiled against stand-ins for the VTK classes, an in-memory unstructured grid (assumed contract on the dependency; file parsing is VTK\'s). Grids of 4 points and 5 cells for every cell type, symbolic in all coordinates and indices: bounded in the number of points and cells.'),
 dict(id='P01', title='The barycentric mapping interpolates, and carries forces back by its transpose',
  statement='After initialisation each mapped node moves as the point of the element that held its rest position: positions and velocities are the sums of those of the nodes of that element weighted by its shape functions there. Forces and constraint lines on the mapped nodes are added to those of the parent nodes with the same weights transposed, keeping what was there, so that the power is the same on both sides; constraint lines without entries add nothing. Initialising twice changes nothing. When a mapped node lies outside of every element, nothing is mapped at all.',
  over=['inputs', 'configurations'], q='all meshes, rest positions, states, velocities, forces and constraint matrices; linear and quadratic elements',
  why='The component only runs inside SOFA scenes; a force carried back with the wrong weights shows up only as a slow energy drift.',
  files=['src/SofaCaribou/Mapping/CaribouBarycentricMapping.inl', 'src/SofaCaribou/Mapping/CaribouBarycentricMapping.h', T + 'BarycentricContainer.h'],
  mech=[('init, apply, applyJ, applyJT (forces and constraints)', 'src/SofaCaribou/Mapping/CaribouBarycentricMapping.inl'), ('interpolate', T + 'BarycentricContainer.h'), ('barycentric_point (contract, B01), L (contract, C01)', T + 'BarycentricContainer.h')],
  note=REAL + ' The real headers are compiled against stand-ins for the SOFA base classes. Meshes of one or two elements, three mapped points and four constraint lines: bounded in these numbers, symbolic in all values. The search of the topology in the scene is sampled natively, not proved.'),
 dict(id='K01', title='The topology holds exactly its given elements; bounding boxes hold all nodes',
  statement='A topology initialised from positions and element indices has one domain, over a mesh with exactly these positions, whose elements are the given ones, in order, node by node; without indices, or when an index is not that of a position, it has none. Attaching a domain makes it the domain of the topology and copies its indices. Initialising again replaces the domain. The bounding box of a force field is, along each axis of the problem, the smallest that holds all nodes, and the box is left alone when it is not asked for.',
  over=['inputs', 'histories'], q='all positions and node indices, seven element types, two and three dimensions',
  why='The component only runs inside SOFA scenes; an index just past the end, or nodes listed in increasing order, is enough to read wild memory or to get an infinite box.',
  files=['src/SofaCaribou/Topology/CaribouTopology.inl', 'src/SofaCaribou/Forcefield/CaribouForcefield.inl'],
  mech=[('init, initializeFromIndices, attachDomain', 'src/SofaCaribou/Topology/CaribouTopology.inl'), ('computeBBox', 'src/SofaCaribou/Forcefield/CaribouForcefield.inl')],
  note=REAL + ' The real headers are compiled against stand-ins for the SOFA base classes. Four positions and one or two elements with one arbitrary index at an arbitrary place, three nodes for the box: bounded in these numbers, symbolic in all values.'),
 dict(id='A01', title='Matrix and vector wrappers hold what the operations define, in any order',
  statement='Whatever the order in which entries and blocks are added and set, rows, columns or both are cleared, the matrix is compressed, cleared or resized, the wrapper of a dense or sparse Eigen matrix (by value or by reference, row or column major) holds the matrix these operations define: an entry is the sum of what was added since it was last set or cleared, and clearing a range zeroes exactly the entries in it. A matrix declared symmetric behaves the same as long as it is. The vector wrapper does likewise.',
  over=['inputs', 'histories'], q='all values; all sequences of operations, before and after compression, and with storage reopened by an insertion',
  why='The order of operations decides between three storage states (pending entries, compressed, uncompressed) in which the same call runs different code; there is no test of it outside SOFA scenes.',
  files=['src/SofaCaribou/Algebra/EigenMatrix.h', 'src/SofaCaribou/Algebra/EigenVector.h'],
  mech=[('add, set, add_block, compress, clear*, resize, initialize', 'src/SofaCaribou/Algebra/EigenMatrix.h'), ('add, set, clear, resize', 'src/SofaCaribou/Algebra/EigenVector.h')],
  note=REAL + ' The real headers are compiled against stand-ins for the SOFA base classes. Proved for all values on listed sequences of up to 15 operations on matrices up to 6 x 6 (bounded in the sequences); random sequences of 30 operations are sampled natively. Wrapping a sparse matrix that already has entries is left out: the code documents such a wrapper as uninitialised.'),
]
NA = [
 dict(id='N02', title='The Newton-Raphson and conjugate gradient solvers converge as advertised',
  statement='The ODE and linear solvers stop at the first iterate that satisfies the requested tolerance or at the iteration limit, and leave the state at that iterate.',
  over=['inputs', 'histories'], q='all scenes', why='Needs whole scenes.', files=['src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp', 'src/SofaCaribou/Solver/ConjugateGradientSolver.inl'], mech=[('solve', 'src/SofaCaribou/Ode/NewtonRaphsonSolver.cpp')],
  reason='The solvers are orchestrations of SOFA visitors over the scene graph (SOFA is not installed; stand-ins would have to model the visitors, the mechanical states and the assembly they perform), so that a proof would be about the model of SOFA rather than about the code.'),
 dict(id='N03', title='The corotational elastic force fields are frame-indifferent',
  statement='A rigid motion of the mesh changes the elastic forces of the hexahedral and tetrahedral corotational fields only by the rotation.',
  over=['inputs'], q='all rotations', why='Needs scenes.', files=['src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp', 'src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp'], mech=[('addForce', 'src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp')],
  reason='The two components are compiled (.cpp) against the SOFA base classes, topology containers, Eigen/SOFA matrix adapters, timers and visual tools; no stand-in for that much of SOFA has been built here, so the code cannot be brought to the verifier. The geometric part they rely on (frame, jacobian, Gauss rules) is under contract in C03, C06 and C09.'),
 dict(id='N04', title='The fictitious grid classifies its cells by the surface they meet',
  statement='Every cell of the sparse grid is inside, outside or on the boundary of the embedded surface, subdivided cells cover their parent, and the reported volume ratios sum to one.',
  over=['inputs'], q='all surfaces and grids', why='Needs scenes.', files=['src/SofaCaribou/Topology/FictitiousGrid.inl'], mech=[('create_grid, tag_intersected_cells', 'src/SofaCaribou/Topology/FictitiousGrid.inl')],
  reason='Flood filling over tree-structured cells with std::bitset/list containers and SOFA data callbacks: the loop invariants over the recursive cell tree are beyond the loop rules of the verifier built here, and a bounded stand-in would need a model of the SOFA component around it.'),
]
