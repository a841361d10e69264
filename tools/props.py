ABS='abstract interpretation of compiler IR with an algebraic value domain (value numbering to normal forms)'
ABSPY='abstract interpretation of the Python syntax tree with an exact domain of rational functions'
FEW='The tests sample a handful of fixed numbers; '
PROPS=[
dict(id='C01', title='Dense and sparse linear algebra computes what it names',
 statement='Determinants, inverses, products, transposes and the dense, fused and sparse matrix kernels return exactly the algebraic result for every matrix, and write only the destination they name. Converting a dense matrix to its compressed forms keeps every entry above the tolerance, at its position and in order, and drops only the others.',
 over=['inputs','configurations'], q='every matrix content, every supported operator size, leading dimension, scaling and number of fused runs',
 why=FEW+'an error in one cofactor, stride or tolerance branch shows only for matrices with particular patterns.',
 files=['src/linalg/Matrix.h','src/data/MmVanilla.hpp'],
 mech=[('closed-form det/inverse, triple-loop products, fused kernels','src/linalg/Matrix.h'),('dense to csc/csr/crd conversion','src/linalg/Matrix.h')],
 tech=ABS, bounds='Sizes are those enumerated in the check (up to 4x4 for closed forms, representative rectangular sizes for products).'),
dict(id='C02', title='Element mappings and geometry are exact for every element',
 statement='For every element type, the map from reference to physical coordinates, its Jacobian, its inverse and the map from face to volume coordinates describe one geometry, and a face point and its image for the neighbouring element are the same physical point for every shared face and orientation. Lengths, areas, volumes, inscribed diameters, tangents, outward unit normals, rotation matrices, clamping to boxes and inside tests equal their geometric definitions.',
 over=['inputs','configurations'], q='every vertex position, point, face and neighbour orientation of lines, triangles, rectangles, tetrahedra and boxes',
 why=FEW+'orientation, sign and tolerance branches depend on the relative position of vertices and points.',
 files=['src/linalg/Mappings.hpp','src/linalg/Shape.hpp','src/linalg/Geom.hpp','src/linalg/HalfSpace.hpp','src/linalg/Domain.hpp','src/constants.hpp'],
 mech=[('coordinate maps','src/linalg/Mappings.hpp'),('geometric quantities','src/linalg/Geom.hpp'),('reference element tables','src/constants.hpp')],
 tech=ABS, bounds='Inside tests are decided for the reference elements; closest points on triangles and tetrahedra are delegated to a missing submodule.'),
dict(id='C05', title='Elastic flux solvers implement the elastic wave equations',
 statement='For every material, geometry and face, the element Jacobians and the two flux solvers of the seismic solver give the exact interface (Godunov) flux of the elastic wave equations, with zero traction at free surfaces, for both sides of interior, boundary and periodic faces. The face-aligned rotation is undone by its inverse, and the wave speeds and stable time step are those of the material and the element size.',
 over=['inputs','configurations'], q='every positive density and Lame parameters, every element geometry and unit normal, 2D and 3D, every face type',
 why=FEW+'most of the assembly (per-face sides, periodic pairs, free surfaces, CFL) is not exercised by any unit test, and wrong entries only show for material contrasts or particular normals.',
 files=['src/impl/seismic/common.hpp','src/impl/seismic/setups/Elasticity.h','src/impl/seismic/setups/Elasticity.cpp','src/impl/seismic/solvers/AderDgInit.hpp'] ,
 mech=[('Jacobians, star matrices and flux solvers','src/impl/seismic/setups/Elasticity.cpp'),('per-face assembly','src/impl/seismic/solvers/AderDgInit.hpp')],
 tech=ABS),
dict(id='C06', title='Anelastic material set-up realises the requested attenuation',
 statement='For every element, the relaxation frequencies, fitted anelastic coefficients and unrelaxed moduli are those that give the requested quality factors and phase velocities at the central frequency, and the source matrices couple memory variables and stresses through the isotropic tensor of these coefficients. The anelastic star matrices and flux solvers give the strain rates of the interface state the elastic solver uses, for both sides of every face, including free surfaces.',
 over=['inputs','configurations'], q='every material, quality factor, frequency band, element geometry and unit normal, 2D and 3D, every face type',
 why=FEW+'no test covers the per-element and per-face assembly, and wrong coefficients only change the attenuation, not the stability.',
 files=['src/impl/seismic/setups/ViscoElasticity.h','src/impl/seismic/setups/ViscoElasticity.cpp','src/impl/seismic/solvers/AderDgInit.hpp'],
 mech=[('frequencies, fit, moduli, source and flux solvers','src/impl/seismic/setups/ViscoElasticity.cpp'),('per-element and per-face assembly','src/impl/seismic/solvers/AderDgInit.hpp')],
 tech=ABS, bounds='2 and 3 relaxation mechanisms; the least-squares solver (Eigen) is a black box with unknown coefficients.'),
dict(id='C07', title='Shallow water solver conserves, keeps still water and respects walls',
 statement='The shallow water solver conserves mass and momentum (up to the bathymetry source) across every face, leaves still water over any bathymetry and constant states unchanged, lets no mass through reflecting walls, and treats fused simulations independently. Its stable time step is the element size over the fastest signal of any wet cell.',
 over=['inputs','configurations'], q='every water height, momentum, bathymetry, gravity, face normal and boundary type, 1D and 2D, every number of fused runs',
 why='There is no finite volume test at all, and the solver tests sample a few states; dry/wall/outflow branches and fused runs depend on signs and combinations the samples miss.',
 files=['src/impl/swe/solvers/Fwave.hpp','src/impl/swe/solvers/FiniteVolume.hpp'],
 mech=[('f-wave Riemann solver','src/impl/swe/solvers/Fwave.hpp'),('face net-updates and element updates','src/impl/swe/solvers/FiniteVolume.hpp')],
 tech=ABS),
dict(id='C08', title='Advection solver is upwind, conservative and CFL-bounded',
 statement='For every velocity field and mesh face the advection flux solvers take the value of the upwind side, what one side of an interior or periodic face loses the other gains, and nothing enters through outflow faces. The time step is the requested fraction of the element size over the advection speed, shrinking with 2*order-1.',
 over=['inputs','configurations'], q='every advection velocity, geometry and face type in 1D, 2D and 3D',
 why='The advection solver set-up has no unit test in the build; the branch on the sign of the normal velocity and the two sides of a face need combinations of velocities.',
 files=['src/impl/advection/solvers/common.hpp','src/linalg/Mappings.hpp'],
 mech=[('flux solvers, star matrices and CFL','src/impl/advection/solvers/common.hpp')],
 tech=ABS),
dict(id='C09', title='ADER-DG kernels apply exactly the discrete operators they name',
 statement='For every set of degrees of freedom and operators, the seismic and advection time predictions return the time derivatives given by the equations and the exact integral of their Taylor series (also over sub-steps and at single points in time), and the volume and surface kernels add exactly stiffness, flux, Jacobian and solver products of the given face and neighbour relation, scaled by the relaxation frequencies for memory variables. Fused simulations never mix.',
 over=['inputs','configurations'], q='every DOF, stiffness, flux, Jacobian and solver entry and time step; element types, orders, mechanisms and fused runs as listed in the check',
 why=FEW+'order-4 tetrahedra only; other element types, orders, fused runs, boundary and orientation cases and the sub-step integrals are not reached.',
 files=['src/impl/seismic/kernels/TimePred.hpp','src/impl/seismic/kernels/TimePredVanilla.hpp','src/impl/seismic/kernels/VolIntVanilla.hpp','src/impl/seismic/kernels/SurfInt.hpp','src/impl/seismic/kernels/SurfIntVanilla.hpp','src/impl/advection/kernels/TimePred.hpp','src/impl/advection/kernels/VolInt.hpp','src/impl/advection/kernels/SurfInt.hpp','src/dg/TimePred.hpp','src/dg/VolInt.hpp','src/dg/SurfInt.hpp'],
 mech=[('seismic kernels','src/impl/seismic/kernels/TimePredVanilla.hpp'),('advection kernels','src/impl/advection/kernels/TimePred.hpp'),('operator set-up','src/dg/SurfInt.hpp')],
 tech=ABS, bounds='Orders 1-4, listed element types; the libxsmm kernel variants are outside (library not present).'),
dict(id='C10', title='Element steps hand over exactly the data local time stepping needs',
 statement='For every combination of time step relations, sub-step, boundary and partition faces, the local step of the DG solvers offers every element\'s integrals over its own step, over two steps and over half a step as its neighbours need them, and sends partition faces exactly the integrals the remote element consumes. The neighbouring step consumes, for every face, the neighbour\'s integral over the very time interval of the element with the face\'s own flux matrices and solvers, and boundary faces use own data only. Both steps update every element of their range once and no other element, and receivers obtain the prediction at their own output times.',
 over=['inputs','configurations','schedules'], q='every DOF, operator, time-step relation pattern, first or second sub-step, boundary type, remote faces, and receiver times',
 why=FEW+'the solvers\' local and neighbouring steps have no unit test beyond set-up; relations are only visible in multi-rate runs.',
 files=['src/impl/seismic/solvers/AderDg.hpp','src/impl/advection/solvers/AderDg.hpp','src/dg/const_ader.inc'],
 mech=[('seismic steps','src/impl/seismic/solvers/AderDg.hpp'),('advection steps','src/impl/advection/solvers/AderDg.hpp')],
 tech=ABS, bounds='Meshes of up to five elements, orders 1-3, listed element types; relation patterns per face are rotated through equal/less/greater.'),
dict(id='C13', title='Scheduler launches every step exactly when its dependencies are met',
 statement='For every number of time groups and every order in which work and messages complete, the scheduler launches each local, source and neighbouring step and each send and receive exactly once per time step of its group, only after everything it reads is complete and everything it overwrites has been consumed, including the data of the neighbouring slower and faster time groups. It never gets stuck and stops only when all groups have done all their steps up to the synchronisation point.',
 over=['schedules','histories','configurations'], q='every order of completion of work packages and messages, 1-4 time groups, every equation',
 why='Tests run the scheduler along one schedule with mocked completion; races and deadlocks need a particular order of completions in different time groups.',
 files=['src/time/Manager.h','src/time/Manager.cpp','src/impl/seismic/inc/time/man_sched.inc','src/impl/advection/inc/time/man_sched.inc','src/impl/swe/inc/time/man_sched.inc','src/time/TimeGroupStatic.cpp'],
 mech=[('control flow per time group','src/time/Manager.cpp'),('equation specific scheduling','src/impl/seismic/inc/time/man_sched.inc')],
 tech='typestate fixpoint over the scheduler transition extracted from compiler IR by abstract interpretation', bounds='Up to four rate-2 time groups and three cycles up to the synchronisation point; statuses of workers and messages follow C14 and the message protocol.'),
dict(id='C14', title='Work packages cover each region once and follow their status protocol',
 statement='For every size of a region, number of workers and measured work times, the packages handed to the workers are contiguous, disjoint and together exactly the region, with the matching offsets of sparse entities. Package statuses only move along waiting/finished, ready, in progress, finished; a change touches only the packages it names, queries tell the truth, and a worker only obtains its own ready package of the highest priority; first-touch initialisation writes every entry exactly once.',
 over=['inputs','configurations','histories'], q='every integer share of the load balancing, every pattern of statuses, workers with or without separate scheduling thread',
 why='Load balancing depends on measured times and is not unit-tested; a lost or doubly processed element needs particular rounding of the shares.',
 files=['src/parallel/Shared.h','src/parallel/Shared.cpp','src/parallel/LoadBalancing.h','src/parallel/LoadBalancing.cpp'],
 mech=[('work packages and statuses','src/parallel/Shared.cpp'),('shares of the workers','src/parallel/LoadBalancing.cpp')],
 tech=ABS, bounds='Regions of up to four entities, up to four workers; flushes are not modelled.'),
dict(id='C16', title='Messages between ranks reach the faces that need them',
 statement='For every partitioning, assignment of time groups and message protocol (MPI or GASPI), each rank exchanges exactly one message per pair of neighbouring time groups with each neighbouring rank, sends and receives agree in partner, tag and size, and the buffer entry a rank fills for a partition face is the one its neighbour reads for the same face. Messages start only for the communication steps of their time group, completion is reported exactly when all have completed, double buffers never overlap data in use, and global minima are attributed to exactly one owning rank.',
 over=['inputs','configurations','schedules'], q='communication structures of up to four ranks and three time groups, every order of completion of messages, two protocols',
 why='The build has no MPI or GASPI: nothing that exchanges messages is compiled or tested.',
 files=['src/parallel/Distributed.h','src/parallel/Distributed.cpp','src/parallel/MpiRemix.h','src/parallel/MpiRemix.cpp','src/parallel/Gaspi.h','src/parallel/Gaspi.cpp'],
 mech=[('message set-up and face pointers','src/parallel/Distributed.cpp'),('MPI','src/parallel/MpiRemix.cpp'),('GASPI','src/parallel/Gaspi.cpp')],
 tech=ABS, bounds='Listed communication structures; MPI and GASPI calls are stand-ins which follow the standards.'),
dict(id='C17', title='Time steps cover every synchronisation interval exactly',
 statement='For every fundamental time step, number of rate-2 time groups and length of a synchronisation interval, each group takes whole cycles of its own time step followed by one cycle of equal steps which share the rest, never a negative or larger step, so that all groups end exactly at the end of the interval. Every step is handed the range, time, time step, position in its pair and data of its group, counters follow the steps done, and every interval starts with fresh counters, statuses and control flow.',
 over=['inputs','configurations','histories'], q='every fundamental time step and rest of an interval, 1-4 time groups, 0-2 full cycles, every equation',
 why='Neither time groups nor the manager are compiled into the tests; the length of the last steps depends on the rest of the division.',
 files=['src/time/TimeGroupStatic.h','src/time/TimeGroupStatic.cpp','src/time/Manager.h','src/time/Manager.cpp','src/impl/seismic/steps.inc','src/impl/advection/inc/time/tgs_steps.inc','src/impl/swe/inc/time/tgs_steps.inc'],
 mech=[('time steps of a group','src/time/TimeGroupStatic.cpp'),('synchronisation interval','src/time/Manager.cpp'),('steps of the equations','src/impl/seismic/steps.inc')],
 tech=ABS, bounds='Up to four groups and two full cycles; rounding of floating point numbers is not modelled.'),
dict(id='C19', title='Sparse entity numbering, links, regions and memory are consistent',
 statement='For every pattern of sparse types, an entity belongs to a type exactly if it has all its bits, sparse ids count the matching entities in dense order, and links lead to the sparse id of exactly the adjacent matching entities. Types are set only for entities with all vertices in their domain and propagated only to neighbours of matching entities, points go to the closest entity of exactly one rank, and regions of a layout follow each other without gaps. Every allocation is released once the way it was allocated, and pieces of flexible allocations are disjoint and fill it.',
 over=['inputs','configurations'], q='listed and pseudo-random patterns of overlapping multi-bit sparse types, adjacency with missing entities, layouts of up to three groups, domains and half-spaces',
 why='The tests of sparse entities are not part of the build; overlapping multi-bit types and missing neighbours need particular meshes.',
 files=['src/data/SparseEntities.hpp','src/data/EntityLayout.cpp','src/data/Dynamic.h','src/data/Dynamic.cpp','src/data/common.hpp','src/mesh/SparseTypes.hpp','src/linalg/Domain.hpp','src/linalg/HalfSpace.hpp'],
 mech=[('sparse entities','src/data/SparseEntities.hpp'),('layouts','src/data/EntityLayout.cpp'),('memory','src/data/Dynamic.cpp')],
 tech=ABS, bounds='Up to eight entities and three slots of adjacent entities; quick uses 15, thorough 65 patterns.'),
dict(id='C12', title='Point sources add their integrated time functions to the right elements',
 statement='The integral of a sampled time function over any interval, inside, outside or across the samples or within a single sample interval, is the exact integral of its linear interpolation. A point source description read from HDF5 is assigned, per fused run and for sources owned by this rank only, to the elements containing the points: in every time step each source adds exactly once its integrated time function times its scaling of the quantity times the basis at its point, scaled with the inverse mass matrix and Jacobian determinant, to its own element and run and to nothing else. Elements with sources, and only these, get the sparse type; inconsistent descriptions are rejected.',
 over=['inputs','configurations'],
 q='sample values, numbers and order of sources, their elements, ranks, runs and time intervals',
 why='The unit tests use one or two source configurations; a wrong permutation, range or integration case only shows for other distributions or intervals.',
 files=['src/linalg/Series.hpp','src/impl/seismic/setups/PointSources.hpp'],
 mech=[('integrate','src/linalg/Series.hpp'),('init, elSpPs, initBasisEvals, initTsData, apply','src/impl/seismic/setups/PointSources.hpp')],
 tech=ABS, bounds='Sample grids of up to 5 samples, 8 points per element pattern, 2 fused runs, TRIA3 and TET4'),
dict(id='C18', title='Receivers record every sample once, in order, at the right place',
 statement='Each receiver is projected to the element it was located in by its owning rank, and samples that element only: over every sequence of time steps, whatever their length, the samples are taken at exactly the multiples of the sampling interval, each once, at the offset of the sample within its time step. Every sample holds, for each quantity and fused run, the modal solution evaluated with the basis at the receiver\'s reference coordinates. The file of a receiver has its header, then one row per sample in order, and no sample is lost, repeated or overwritten for any sequence of buffer flushes up to the end of the run.',
 over=['inputs','configurations','histories'], q='solutions, basis values; distributions of receivers to elements, groups and ranks, sequences of time steps and flushes',
 why='Receivers.cpp is not part of the test build; missed or doubled samples need time steps which are not multiples of the sampling interval.',
 files=['src/io/Receivers.h','src/io/Receivers.cpp','src/impl/seismic/solvers/AderDg.hpp'],
 mech=[('set-up, sampling and output','src/io/Receivers.cpp'),('sampling in the local step','src/impl/seismic/solvers/AderDg.hpp')],
 tech=ABS, bounds='Up to six receivers, two time groups; nine (quick) to twenty time steps; rounding of times is not modelled.'),
dict(id='C15', title='The driver hands mesh, material and configuration to the solver unchanged',
 statement='Before time stepping starts, the driver hands the geometry, adjacency, flags and per-element material of the mesh to the solver unchanged (a material of the mesh is overridden by the first configured domain containing the average of the element\'s vertices, the initial shallow water column is max(displacement - bathymetry, 0)) and registers, for every time group and step, work regions containing every element (shallow water: every face, then every element) exactly once with its group and role. The simulation then advances through positive synchronisation intervals that never exceed the configured limits, sum to the configured end time and stop at every multiple of the wave field interval up to it, where the wave field is written once. After the end, the error norms are reduced over all ranks.',
 over=['inputs','configurations','histories'], q='mesh values, materials, overlapping or missing domains and models, time steps, end times, wave field intervals and synchronisation limits',
 why='The driver and its set-up files are compiled by no test; a wrong offset, a skipped override or an interval that is not a multiple of the limit only shows in full runs with particular configurations.',
 files=['src/main.cpp','src/impl/seismic/setup.inc','src/impl/advection/setup.inc','src/impl/swe/setup.inc','src/io/inc/setup_recv.inc','src/dg/setup_ader.inc','src/impl/seismic/fin.inc','src/impl/advection/fin.inc'],
 mech=[('set-up and synchronisation loop','src/main.cpp'),('equation-specific set-up','src/impl/seismic/setup.inc'),('receivers','src/io/inc/setup_recv.inc')],
 tech=ABS, bounds='One rank of three with two time groups, 8 elements and 7 faces; 12 combinations of end time, wave field interval and limit; time arithmetic is exact (rounding not modelled).'),
dict(id='C11', title='Wave field output shows the solution of the requested elements',
 statement='Every write of the wave field produces, for each rank with elements to print, one complete VTK file at <directory>/<rank>/<file>_<rank>_<write>.vtk, whose directories are created, and nothing for ranks without such elements or if no known output type is configured. The file holds all vertices of the rank with their coordinates and, in order, exactly the elements whose sparse type has all requested bits, with their vertices and cell type. The field of every quantity and fused run holds the means of the printed elements at the time of the write, in text as in binary (big-endian) form.',
 over=['inputs','configurations','histories'], q='coordinates, solutions and their changes between writes; sparse types, element types, numbers of elements, quantities and fused runs',
 why='No test covers the output; a wrong stride or element id only shows for filtered elements, fused runs or later writes.',
 files=['src/io/WaveField.cpp','src/io/WaveField.h','src/io/Vtk.cpp','src/io/Vtk.h','src/io/FileSystem.hpp','submodules/visit_writer/visit_writer.cpp'],
 mech=[('selection of elements and files','src/io/WaveField.cpp'),('buffers','src/io/Vtk.cpp'),('file format','submodules/visit_writer/visit_writer.cpp')],
 tech=ABS, bounds='Up to 23 elements, 31 vertices and 11 writes; all five element types; single-precision rounding of the output is not modelled.'),
dict(id='C04', title='Configuration: every value of the XML document reaches the solver as written',
 statement='For every XML configuration, mesh paths, boundary ids, sparse types with their half-space domains, initial and reference expressions of every fused run, end time, wave field, internal boundary, receiver and error norm output, synchronisation limit and workers are those of the document, and likewise the seismic source files, attenuation, velocity domains in their order, fault coordinates, friction parameters and initial stresses of every rupture. What is missing has its default (zero expressions, 5% of the end time or the wave field interval, whichever is smaller, as synchronisation limit; receivers without sampling or directory are disabled), and invalid documents (errors, non-positive intervals, limits, attenuation frequencies or quality factors, a number of source files other than that of the fused runs) are rejected. Error norms are saved once, by rank 0, for every norm, quantity and fused run.',
 over=['inputs','configurations'], q='all values of the documents, all numbers of runs, receivers, domains and boundaries', why='io/Config and the seismic configuration are not part of the tested build',
 files=['src/io/Config.cpp','src/io/Config.h','src/impl/seismic/io/Config.cpp','src/io/ErrorNorms.cpp','src/linalg/Domain.hpp','src/linalg/HalfSpace.hpp'],
 mech=[('Config::Config','src/io/Config.cpp'),('seismic::io::Config','src/impl/seismic/io/Config.cpp'),('ErrorNorms::writeXml','src/io/ErrorNorms.cpp'),('Domain::inside','src/linalg/Domain.hpp')],
 tech=ABS, bounds='four document patterns per equation (numbers of runs, receivers, domains and boundaries up to four), numbers symbolic where they do not decide about the flow'),
dict(id='C21', title='EDGE-V: CFL time steps and time groups keep local time stepping stable',
 statement='For every mesh and velocity model, the relative CFL time step of an element is its insphere diameter over the largest wave speed (of the element, or the mean over its vertices), divided by the minimum over the mesh; non-positive speeds, rates outside ]1,2] and fundamental time steps outside ]0,1] are rejected. The intervals of the time groups start at the fundamental time step, grow by the rates and are open-ended; the group of an element never exceeds the interval containing its time step, groups of adjacent elements differ by at most one, and no element could be put in a larger group without breaking this. Counts of elements per group (whole mesh or range), the speed-up over global time stepping and the element averages of point data follow.',
 over=['inputs','configurations'], q='insphere diameters, wave speeds, time steps, adjacency, rates and fundamental time steps', why='The unit tests use one small assignment per element type; normalisation chains, limits of intervals and rejected inputs are not covered.',
 files=['tools/edge_v/src/time/Cfl.cpp','tools/edge_v/src/time/Groups.cpp','tools/edge_v/src/models/Model.cpp','tools/edge_v/src/models/Constant.cpp'],
 mech=[('Cfl::setTimeSteps','tools/edge_v/src/time/Cfl.cpp'),('Groups::normalizeElTgs','tools/edge_v/src/time/Groups.cpp'),('Model::getElAve','tools/edge_v/src/models/Model.cpp')],
 tech=ABS, bounds='Time steps symbolic for up to three elements of each type; groups for meshes of up to seven elements and five groups; exact arithmetic.'),
dict(id='C22', title='EDGE-V: partitions and communication structure mirror the adjacency of the mesh',
 statement='For every mesh, the graph partitioner gets the dual graph of the mesh with element weights proportional to the number of updates, its answer is the assignment and determines the sizes, and the priorities order elements by partition, elements without neighbours in other partitions before those with, and time group. For every partition of a mesh in this order, inner and send elements are counted per time group, and there is exactly one channel for every own time group, adjacent partition and time group of the adjacent elements, whose send and receive lists hold each shared element-face pair once, in partition-local ids. The i-th entry sent through a channel is the face-neighbour of the i-th entry the other partition receives.',
 over=['inputs','configurations'], q='adjacency, partitions, time groups, numbers of elements', why='The tests cover single examples; wrong offsets or mirrored lists only show for several groups or more than two partitions.',
 files=['tools/edge_v/src/mesh/Partition.cpp','tools/edge_v/src/mesh/Partition.h','tools/edge_v/src/mesh/Communication.cpp','tools/edge_v/src/mesh/Communication.h'],
 mech=[('Partition::kWay','tools/edge_v/src/mesh/Partition.cpp'),('Partition::getElPr','tools/edge_v/src/mesh/Partition.cpp'),('Communication::getStruct','tools/edge_v/src/mesh/Communication.cpp'),('Communication::setSeReElFa','tools/edge_v/src/mesh/Communication.cpp')],
 tech=ABS, bounds='Random meshes of up to ten elements, four partitions and four time groups per element type; elements share at most one face.'),
dict(id='C20', title='EDGE-V: geometry and normalisation of lines, triangles, rectangles, hexes, tets',
 statement='For all vertices, EDGE-V returns the length, area or volume, the diameter of the inscribed circle or sphere (the shortest edge of rectangles), the centroid as mean of the vertices whatever the output held before, and unit normals pointing away from a given point with right-handed orthonormal tangents. Normalisation orders the vertices of an element counter-clockwise (simplices: smallest ids first; rectangles: by position) and its faces and face-neighbours as those of the reference element; degenerate elements and unsupported types are rejected. The local face id of a neighbour is the one behind which the element is, and the vertex id is the position of the face\'s first vertex in the neighbour\'s face, also across periodic boundaries.',
 over=['inputs'], q='coordinates, orders of vertices, adjacency', why='The tests check a few elements in few orientations; a wrong branch shows for particular orders of the vertices or orientations only.',
 files=['tools/edge_v/src/geom/'+f for f in ('Geom.cpp','Generic.cpp','Line.cpp','Tria3.cpp','Quad4r.cpp','Hex8r.cpp','Tet4.cpp')],
 mech=[('Geom::normVesFas','tools/edge_v/src/geom/Geom.cpp'),('Tria3::tangents','tools/edge_v/src/geom/Tria3.cpp'),('Tet4::getVeIdsAd','tools/edge_v/src/geom/Tet4.cpp'),('Generic::centroid','tools/edge_v/src/geom/Generic.cpp')],
 tech=ABS, bounds='Measures for symbolic coordinates; normals and tangents symbolic up to a set of rotations; normalisation for all orders of the vertices (sampled for hexahedra) of random elements.'),
dict(id='C23', title='EDGE-V: mesh topology, face types, periodic boundaries and gmsh interface',
 statement='For every conforming mesh gmsh provides, EDGE-V numbers vertices by tag without duplicates, has every face once with sorted vertices, its one or two elements in ascending order and the bitwise or of the physical groups it is part of as type, and elements with normalised vertices, matching faces and the elements behind them. Periodic faces connect their own element with that of the opposite face, and areas, volumes, centroids, in-diameters, normals (away from the first element), tangents and neighbouring local ids belong to this topology. Reordering hands gmsh a permutation sorted by priority, partitioning hands over the number of elements per partition, element data is written for the elements, reading again replaces the mesh, and mixed meshes or faces of wrong type are rejected.',
 over=['inputs','configurations'], q='meshes, numbering, physical groups, periodic boundaries', why='The tests use few meshes and check sizes or single entries; errors for unusual numbering, overlapping groups or periodic partners stay invisible.',
 files=['tools/edge_v/src/mesh/Mesh.cpp','tools/edge_v/src/mesh/Mesh.h','tools/edge_v/src/io/Gmsh.cpp','tools/edge_v/src/io/Gmsh.h'],
 mech=[('Mesh::Mesh','tools/edge_v/src/mesh/Mesh.cpp'),('Mesh::setPeriodicBnds','tools/edge_v/src/mesh/Mesh.cpp'),('Mesh::normOrder','tools/edge_v/src/mesh/Mesh.cpp'),('Gmsh::readMesh','tools/edge_v/src/io/Gmsh.cpp'),('Gmsh::reorder','tools/edge_v/src/io/Gmsh.cpp')],
 tech=ABS, bounds='Structured and split grids of up to some dozen elements with random numbering, groups and periodic directions (at least three elements where two elements would share two faces).'),
dict(id='C03', title='Basis functions, quadrature, initial values and error norms are exact',
 statement='For lines, rectangles, triangles, hexes and tets and every order, each basis function and derivative is the orthogonal Legendre, tensor or Dubiner polynomial at every point of the reference element, also on its boundary, however it is evaluated; point values, projections from quadrature points, the inverse mass matrix and the stiffness and flux matrices handed to the solvers belong to this basis. Quadrature rules lie inside, have positive weights, integrate polynomials up to their degree exactly, and are mapped to every element, face and neighbouring face point by point. Initial degrees of freedom of exactly the given elements are the L2 projection of the expression of their run (zero for quantities it does not set), and the L1, squared L2 and maximum errors are those of the difference between the solution and the reference of the run, summed over exactly the given elements.',
 over=['inputs','configurations'], q='points, elements, expressions, degrees of freedom, orders', why='Basis.cpp is not part of the tests which run here; a wrong mode, derivative, weight or order of points is only visible for the point, order and element type it concerns.',
 files=['src/dg/Basis.cpp','src/dg/Basis.h','src/dg/generated','src/dg/QuadraturePoints.h','src/dg/QuadratureEval.hpp','src/setups/InitialDofs.hpp','src/data/Expression.hpp'],
 mech=[('Basis::evalBasis','src/dg/Basis.cpp'),('Basis::qpts2modal','src/dg/Basis.cpp'),('QuadraturePoints::getQpts','src/dg/QuadraturePoints.h'),('QuadratureEval::faces','src/dg/QuadratureEval.hpp'),('InitialDofs::dg','src/setups/InitialDofs.hpp'),('InitialDofs::err','src/setups/InitialDofs.hpp')],
 tech=ABS, bounds='Functions are compared as polynomials in a symbolic point (quick: lines 10, triangles 7, tets 5, rectangles and hexes 3; thorough: 10 and 4); rules up to order 4 (6) on the reference and random elements; projection and errors of random polynomials on random elements.'),
dict(id='C24', title='Mesh reader: time groups, relations and communication are those annotated',
 statement='The solver\'s mesh reader takes time groups, relative time steps, communication channels, send and receive faces and neighbouring ids from the annotated mesh unchanged, lays out inner elements by group before send elements by group, treats a mesh without annotation as one group, and refuses inconsistent annotations. Every element carries, on top of flags already set, for each of its faces exactly the relation (equal, less, greater) of its time group to that of the neighbour, also across ranks, and the flags of the mesh; ids of shared faces and vertices come from the mesh or, across ranks, from the annotation. Data sets written to an HDF5 file are read back unchanged, and every data set, space and file opened is closed.',
 over=['inputs','configurations'], q='annotated meshes, time groups, ranks, data sets', why='The reader is not covered by built tests beyond single small meshes, and wrong relations only show for particular groups at particular faces or ranks.',
 files=['src/mesh/EdgeV.cpp','src/mesh/EdgeV.h','src/data/EntityLayout.cpp','src/dg/const_ader.inc','tools/edge_v/src/io/Hdf5.cpp','tools/edge_v/src/io/Hdf5.h'],
 mech=[('EdgeV::setLtsTypes','src/mesh/EdgeV.cpp'),('EdgeV::setSeVeFaIdsAd','src/mesh/EdgeV.cpp'),('EntityLayout::sizesToLayout','src/data/EntityLayout.cpp'),('Hdf5::get','tools/edge_v/src/io/Hdf5.cpp')],
 tech=ABS, bounds='Enumerated meshes of all element types with one to five time groups, with and without ranks; data values symbolic.'),
dict(id='C25', title='EDGE-V inputs: velocity models, grids, refinement and configuration',
 statement='The wave speeds EDGE-V uses at a point are those the configured model (constant, expression, bathymetry or displacement grid, UCVM with transformation, projection and normalization rule) has at this point, and a model may be set up, released and destroyed in any order. Target edge lengths follow the refinement expression at the element\'s centroid and wave-speed ratio, are the smallest of the adjacent elements at a vertex, and reach the background mesh unchanged together with the mesh. Every value of the configuration is used as written or has its documented default; points outside of a grid, non-positive frequencies and material, broken expressions and unsupported elements are refused.',
 over=['inputs','configurations','histories'], q='points, grids, expressions, meshes, documents', why='Models other than expressions and most of the configuration have no tests; wrong grid nodes, stale data after re-initialization and lost configuration values only show for particular inputs.',
 files=['tools/edge_v/src/models/GridExpression.cpp','tools/edge_v/src/models/Constant.cpp','tools/edge_v/src/models/Model.cpp','tools/edge_v/src/models/seismic/Expression.cpp','tools/edge_v/src/models/seismic/Rule.cpp','tools/edge_v/src/models/seismic/Ucvm.cpp','tools/edge_v/src/io/Ucvm.cpp','tools/edge_v/src/io/Grid.cpp','tools/edge_v/src/io/ExprTk.cpp','tools/edge_v/src/io/BgMeshMsh4.cpp','tools/edge_v/src/io/Config.cpp','tools/edge_v/src/mesh/Refinement.cpp'],
 mech=[('GridExpression::init','tools/edge_v/src/models/GridExpression.cpp'),('Grid::init','tools/edge_v/src/io/Grid.cpp'),('Refinement::init','tools/edge_v/src/mesh/Refinement.cpp'),('Config::Config','tools/edge_v/src/io/Config.cpp')],
 tech=ABS, bounds='Drawn points, grids and meshes; velocities, grid values and time steps symbolic; a full, an empty and mixed documents.'),
dict(id='C26', title='EDGE-V: the driver derives consistent annotated meshes from its configuration',
 statement='For every configuration, EDGE-V\'s driver writes the refinement of the input mesh if asked, computes time steps with the speeds the configured model has at the vertices or centroids of the mesh at hand, groups elements by rate-two time groups with the given or the best fundamental time step, partitions, reorders and writes the mesh, and derives everything it writes afterwards from the reordered mesh. Every partition gets one support file, holding exactly its part of time intervals, counts per time group, communication structure, element and face ids, and bathymetry or displacements, in an order of the elements which is contiguous per time group; annotations are complete and belong to the mesh they are written for. Missing or unknown arguments are refused, objects are not used after their destruction and files are closed.',
 over=['inputs','configurations','histories'], q='configurations, models, meshes', why='The driver is not part of any test; stale data of the mesh before the reordering or the wrong partition\'s slice only show for particular combinations of options.',
 files=['tools/edge_v/src/main.cpp'], mech=[('main','tools/edge_v/src/main.cpp')],
 tech=ABS, bounds='Eleven combinations of options (thorough: thrice) with up to three partitions and four time groups; components behind the driver are stand-ins with the contracts of C18-C25.'),
dict(id='C27', title='EDGEcut: extruded surfaces are watertight, oriented and where they belong',
 statement='For every complete structured grid, EDGEcut\'s six panels together form a closed surface: every edge belongs to exactly two triangles in opposite directions, triangles point outwards and cover the domain, also across the coarsening levels. The top has all points of the grid, the bottom the coarse points at the target depth, the sides go in equal steps, none longer than the smallest coarse spacing, from the surface to the target depth; headers count what follows. The configured grid, depth and levels are used and every panel is written to its file; incomplete grids, grids that do not fit or are too small for the levels, and targets above the grid are refused.',
 over=['inputs','configurations'], q='grids, spacings, heights, levels', why='The tests use two grids of twelve points without coarsening of the constructor; gaps and flipped triangles only show for particular sizes, spacings and levels.',
 files=['tools/edge_cut/src/mesh/Extrude.cpp','tools/edge_cut/src/main.cpp','tools/edge_cut/src/io/Config.cpp','tools/edge_cut/src/io/OptionParser.cpp'], mech=[('Extrude::Extrude','tools/edge_cut/src/mesh/Extrude.cpp'),('Extrude::writeTriaOff','tools/edge_cut/src/mesh/Extrude.cpp'),('main','tools/edge_cut/src/main.cpp')],
 tech=ABS, bounds='Grids of up to 33 x 33 (thorough 41 x 33) points, up to three levels, drawn uneven spacings and heights; sides for symbolic coordinates.'),
dict(id='N01', title='Complete simulations converge with the design order and stay stable',
 statement='For smooth solutions, refined meshes and the CFL time step, the error of complete simulations decreases with the order of the scheme, and energy stays bounded.',
 over=['inputs','histories'], q='meshes, solutions, numbers of steps', why='Needs complete simulations.',
 files=['src/main.cpp'], mech=[('main','src/main.cpp')], tech=ABS,
 na='Convergence and stability are asymptotic statements about norms of whole-simulation results over runtime meshes and step counts; no static argument in reach bounds them. Their ingredients (operators, fluxes, time steps, exchanged data) are decided exactly by C02-C10 and C17.'),
dict(id='N02', title='Rounding errors of the kernels stay within the accuracy of the number format',
 statement='The floating-point results of all kernels differ from the exact results by no more than a small multiple of the machine precision relative to the data.',
 over=['inputs'], q='degrees of freedom, operators', why='Rounding depends on the values and on the order of operations.',
 files=['src/linalg/Matrix.h'], mech=[('Matrix','src/linalg/Matrix.h')], tech=ABS,
 na='The checks decide values in exact arithmetic. Useful rounding bounds need the ranges and conditioning of runtime data (materials, meshes, solutions), which are not available statically; a general bound would be vacuous, and the code states no accuracy it promises.'),
dict(id='N03', title='Threads see each other\'s writes under the memory model of the language',
 statement='For every interleaving of scheduler and worker threads, data written by one thread is visible to another before the latter is told to use it.',
 over=['schedules'], q='interleavings of threads', why='Races depend on the schedule and the hardware.',
 files=['src/parallel/Shared.cpp'], mech=[('Shared::setStatusTd','src/parallel/Shared.cpp')], tech=ABS,
 na='The code synchronises through volatile status words without atomics or locks, i.e. every program point is formally racy and relies on the ordering guarantees of the target architecture; there is no language-level discipline a static analysis could confirm. The protocol on top (statuses, ownership, dependencies) is decided by C13 and C14 under sequential consistency.'),
dict(id='C28', title='EDGEpre: mass, stiffness and flux operators are those of the basis and faces',
 statement='For every element type and polynomial degree of its configuration, EDGEpre writes mass, stiffness (volume and time) and flux operators (local, adjacent, back-projection) which are the exact integrals over the reference element and its faces of the hierarchical basis the solver evaluates, scaled by the inverse mass matrix. The operators of a face and of an adjacent face meet in the same points, for every pair of faces and every vertex orientation. Files contain all entries in order, and the conversion to C++ keeps shape, entries, size and pointer.',
 over=['inputs','configurations'], q='element types, degrees, faces, orientations, arrays', why='The tests compare the bases of low degrees and two small matrices; the driver, the faces and the writing of the files have no tests.',
 files=['tools/edge_pre/edge_pre.py','tools/edge_pre/cpp.py','tools/edge_pre/edge_pre/int/Matrices.py','tools/edge_pre/edge_pre/int/Scalar.py','tools/edge_pre/edge_pre/types/Tet.py','tools/edge_pre/edge_pre/dg/basis/Tet.py','tools/edge_pre/edge_pre/io/ArrStr.py'], mech=[('flux','tools/edge_pre/edge_pre/int/Matrices.py'),('int','tools/edge_pre/edge_pre/int/Scalar.py'),('convert','tools/edge_pre/cpp.py')],
 tech=ABSPY, bounds='Degrees 0-3 (tetrahedra), 0-2 (hexahedra), 0-4 (triangles), 0-3 (quadrilaterals), 0-6 (lines); thorough up to 4, 3, 7, 5 and 9.'),
dict(id='C29', title='EDGEpre: sub-cell grids partition the element; scatter/gather/surface agree',
 statement='For every element type and degree, the sub-cell grids EDGEpre generates partition the reference element into sub-cells of equal volume with consistent face adjacency, types and ghost (send and receive) cells across every pair of faces and vertex orientations. Scatter gives the exact sub-cell averages of a DG polynomial, gather is its conservative inverse (gathering scattered data returns the polynomial), and the surface operators are the integrals over exactly the sub-faces of the DG faces. The files written contain these tables in the layout the solver reads.',
 over=['inputs','configurations'], q='element types, degrees, sub-cells, faces, orientations', why='The unit tests compare single tables of low degrees with literals; conservation, exactness, adjacency across faces and the driver have no tests.',
 files=['tools/edge_pre/edge_pre/sc/grid/Generic.py','tools/edge_pre/edge_pre/sc/grid/Hex.py','tools/edge_pre/edge_pre/sc/grid/Tet.py','tools/edge_pre/edge_pre/sc/grid/Tria.py','tools/edge_pre/edge_pre/sc/grid/Quad.py','tools/edge_pre/edge_pre/sc/grid/Line.py','tools/edge_pre/edge_pre/sc/ops/Project.py'], mech=[('scatter','tools/edge_pre/edge_pre/sc/ops/Project.py'),('scSfSc','tools/edge_pre/edge_pre/sc/grid/Generic.py')],
 tech=ABSPY, bounds='Degrees 0-2 (tetrahedra), 0-1 (hexahedra), 0-3 (triangles and quadrilaterals), 0-4 (lines); thorough additionally hexahedra 2, tetrahedra 3, triangles and quadrilaterals 4.'),
dict(id='C30', title='Internal boundaries: fault friction law, middle states and net-updates',
 statement='A fault slips exactly where the total shear stress exceeds its strength (friction coefficient times compressive total normal stress, minus cohesion; none in tension). A locked fault leaves the middle state as it is; a slipping one carries its strength in the direction of the total shear stress, changes only the fault-parallel velocities, with the impedances of the minus and plus side and opposite signs, accumulates the absolute slip rate over the time step as slip, and weakens linearly with slip from the static to the dynamic friction coefficient. Minus and plus follow the face data, not left and right. Every fused run and sub-face is independent. The solvers set up for fault faces are rotation, jump over the left-going waves and flux of the two adjacent materials, scaled to sub-faces; the net-updates are those fluxes of the perturbed middle states.',
 over=['inputs','configurations'], q='stresses, strengths, slips, friction parameters, materials, normals, sub-faces, fused runs', why='The unit tests evaluate the law at one failing state per dimension; the internal boundary tests are not part of the build.',
 files=['src/impl/seismic/solvers/FrictionLaws.hpp','src/impl/seismic/solvers/FrictionLaws.type','src/impl/seismic/solvers/InternalBoundary.hpp','src/impl/seismic/generated/MiddleStateJumpL2D.inc','src/impl/seismic/generated/MiddleStateJumpR2D.inc','src/impl/seismic/generated/MiddleStateFlux2D.inc','src/impl/seismic/generated/MiddleStateJumpL3D.inc','src/impl/seismic/generated/MiddleStateJumpR3D.inc','src/impl/seismic/generated/MiddleStateFlux3D.inc'], mech=[('linSlipWeak','src/impl/seismic/solvers/FrictionLaws.hpp'),('netUpdates','src/impl/seismic/solvers/InternalBoundary.hpp')],
 tech=ABS, bounds='Friction law: all values, 1-2 fused runs, 2D and 3D. Set-up: all materials, any 2D normal, arbitrary 3D frames; fixed frames where a preferred direction is given.'),
dict(id='C31', title='Sub-cell limiter: detection, projections, super-cells and Lax-Friedrichs steps',
 statement='A candidate solution is admissible for a fused run exactly if no extremum of a quantity leaves the extrema of the element and its neighbours by more than max(1e-4, 1e-3 of their range); missing neighbours are ignored. Extrema are those over all sub-cells. Scatter, gather and surface integration apply their operators per quantity and run; stored sub-cells replace projected ones exactly for non-admissible runs; surface sub-cells are stored as the neighbour sees them, for required faces only. Super-cells average their two sub-cells and nothing else. The point-to-sub-cell query finds the closest sub-cell and the face grids keep the vertices of their sub-faces. The local Lax-Friedrichs solver uses the flux of own and adjacent material and the larger wave speed as viscosity, scaled by sub-face area over sub-cell volume, and a sub-cell step applies it through all faces with the side given by the face type, or given net-updates at DG-faces instead.',
 over=['inputs','configurations'], q='degrees of freedom, operators, materials, neighbourhoods, admissibility, sub-face types, fused runs', why='The unit tests use single literal cases (triangles, tetrahedra); the kernels are only tested where libxsmm is available.',
 files=['src/sc/Detections.hpp','src/sc/Kernels.hpp','src/sc/SubGrid.hpp','src/sc/ibnd/SuperCell.hpp','src/impl/seismic/sc/Llf.hpp'], mech=[('dmpVe','src/sc/Detections.hpp'),('tsSc','src/impl/seismic/sc/Llf.hpp')],
 tech=ABS, bounds='Order 2 of all 2D and 3D element types, two fused runs; degrees of freedom, operators and materials arbitrary; extrema, neighbourhoods and sub-grid queries over fixed families of values (candidates arbitrary).'),
]
