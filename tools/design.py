"""Writes DESIGN.md: text below plus, per property, statement, rules (from the last evidence) and bounds. Run after `allchecks`."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = r'''# Static verification of 3343/edge

## Approach
Family: static analysis. The deciding step of every check is an abstract interpretation of the compiler IR of `/repo`'s current
working tree. Nothing of 3343/edge is executed, linked or handed to a solver.

* `engine/build.py` compiles the anchored translation units (clang 18, `-emit-llvm`, `-O1`, the definitions of the build's
  configurations) together with small driver texts, which only instantiate templates and name entry points; access control is
  switched off (`-fno-access-control`) so that private members can be named. Missing third-party headers (MPI, GASPI, UCVM, proj, ...)
  are replaced by declarations in `stubs*/`.
* `engine/llvm.py` reads the bitcode (types, debug lines, globals, CFG) through libLLVM's C API (ctypes).
* `engine/absint.py` is an abstract interpreter: flow-sensitive, inter-procedural, field-sensitive memory, one abstract state
  per program point. Control flow is **joined at every post-dominator** (values become conditional values), so no path is
  enumerated and no path condition is ever handed to a solver. Loops whose trip counts are constants of the analysed
  configuration are unrolled, others are summarised (the locations they write become unknown). Unresolved calls havoc what
  they can reach. Memory objects are typestates: use after release, double release, out-of-bounds or uninitialised access and
  wrong release are reported as ends of the analysis ("why") and hence as violations of the rule which needed the result.
* `engine/algebra.py` is the value domain: rational functions over the symbolic inputs, with sqrt and conditional atoms,
  in hash-consed normal forms (value numbering). Two values are equal iff their normal forms are; signs of
  declared-positive inputs are known. Symbolic inputs stand for all values; nothing about them is sampled.
* `engine/harness.py` collects obligations (rule, instance, construct), writes evidence and the verdict. An obligation which
  cannot be decided is never a silent pass; rules that match nothing and too few obligations are errors (exit 2) as well.

*Borders.* Calls to the outside (MPI, files, HDF5, gmsh, METIS, Eigen, expression library, threads) and, per check, to components
which have a property of their own are replaced by models with the contract the caller may rely on; the models record effects,
which the rules judge. That is an effect analysis: e.g. C26 judges which mesh, which groups, which partition reached which file.

*Oracle.* The mathematical definition written down in the check (e.g. the exact interface state of the elastic equations, the
Dubiner polynomials, the dual graph of a mesh), or a relation between results of the code itself (conservation, symmetry, inverse,
sent = expected). Checks judge values and effects, never spelling or the order of independent statements.

*Bounds.* Real arithmetic: floating-point rounding is not modelled. Template configurations, sizes and topologies are
enumerated (listed per property); numbers (degrees of freedom, materials, coordinates, time steps, values of the document) are
symbolic wherever they do not steer the control flow over the enumerated topology. `thorough` enlarges the enumerations (orders, meshes,
histories, configurations).

*Why this reaches what tests cannot.* Tests evaluate a handful of inputs of the configurations they are compiled for, and a large
part of the repository is in no test at all (see "Not reached by the tests"). The analysis covers all values of the symbolic inputs at once, every
combination of steering inputs it enumerates, and orders of events (C13, C14, C16, C17, C18: any completion order via joined states or
exhaustive abstract worlds).

*Cost.* quick: 2-60 s per check with 8 cores, all checks below 10 minutes in total; thorough: up to 15 minutes each.

## Properties
Source of `properties.jsonl` and `MANIFEST.json`: `tools/props.py` (run `tools/gen.py`). The check of CNN is `checks/CNN.py`; its rules, with the number
of obligations of the last quick run, are listed below.
'''
NOTES = {
'C01': 'Matrix entries, leading dimensions and fused runs symbolic resp. enumerated; memory effects (nothing else written) from the abstract memory.',
'C02': 'Vertices symbolic; face/orientation combinations enumerated completely.',
'C03': 'The oracle builds the Legendre/Dubiner polynomials exactly (rationals) and compares normal forms in the symbolic point; a singular quotient in the generated tables is a known finding.',
'C04': 'The XML library is the border: a document model hands out values which are symbolic where they do not steer the flow; what arrives in the configuration object and the error-norm file is judged.',
'C05': 'Oracle: exact solution of the elastic Riemann problem by characteristics, assembled with face rotation; all materials and normals symbolic.',
'C06': 'Eigen is the border (unknown coefficients with the least-squares contract).',
'C07': 'f-wave solver and face/element updates for symbolic states; dry/wet cases by conditional values.',
'C08': 'Upwind flux for symbolic velocities; both signs by conditional values.',
'C09': 'Vanilla kernels of the listed element types and orders with symbolic operators and DOFs; Cauchy-Kowalewski recursion as oracle.',
'C10': 'Small meshes whose faces carry all combinations of relations; the buffers consumed are matched with those offered over a history of steps.',
'C11': 'File system and VTK output are effects; the byte stream is parsed by the check and compared with the mesh and symbolic DOFs.',
'C12': 'Series with symbolic samples over all relative positions of the two ends; HDF5 is the border.',
'C13': 'Exhaustive abstract worlds: the scheduler code is interpreted once per abstract scheduling state (statuses of work and messages), and the transition relation obtained is checked for guards (safety) and absence of stuck states over every order of completion.',
'C14': 'All integer shares of the load balancing and all status vectors of up to four workers.',
'C15': 'main.cpp interpreted with all its borders; a typestate (what has been set up) and the arguments of the borders are judged.',
'C16': 'Two sides of every channel are interpreted and compared; message completion is enumerated.',
'C17': 'Step counters and times exact rationals; the sum of steps telescopes to the synchronisation interval.',
'C18': 'Sampling windows with exact rational times over sequences of steps; file contents are effects.',
'C19': 'Enumerated patterns of sparse types; memory manager as typestate.',
'C20': 'Symbolic vertices; orders of vertices enumerated.',
'C21': 'Symbolic time steps where possible; groups for enumerated meshes against the greatest admissible assignment.',
'C22': 'METIS is the border (any assignment); structure compared with sets built directly from the adjacency.',
'C23': 'gmsh API is the border: structured and split meshes with random numbering.',
'C24': 'EDGE-V\'s HDF5 files and mesh are the border, all data symbolic.',
'C25': 'Expression library, UCVM, proj and files are borders; histories of init/free/destruction are typestates of the heap.',
'C27': 'XML library and streams are borders; the text written is parsed and judged as a surface (edges, orientation, coverage).',
'C28': 'Python sources are walked over their syntax tree (engine/pyabs.py); sympy, scipy, argparse and files are stand-ins with exact rational functions; where the code depends on the length of a printed expression both ways are followed and must agree.',
'C29': 'The walk of C28 over everything that belongs to sub-cells; the files written are judged as geometry: coverage and disjointness by exact volumes and maps, adjacency by shared vertices, operators by exact integrals over each sub-cell and sub-face, gather by the composition with scatter and the sums conserved.',
'C30': 'Law compared with its equations for all stresses, strengths and slips; middle states and operators judged by the eigenvectors of the symbolic materials. In the net-updates the matrix kernels and the friction law are stand-ins that record what they get.',
'C31': 'Degrees of freedom symbolic; matrix kernels stand-ins that multiply exactly; sub-cell fluxes compared with the local Lax-Friedrichs formula for every sub-face type, detection with the definition by extrema.',
'C26': 'All components behind the driver are borders with the contracts of C18-C25; the recorded sequence of effects is judged.',
}
TAIL = r'''
## Not applicable
Listed with reasons in MANIFEST.json (`not_applicable`): see N01-N03 there. In short: rounding, convergence order of whole simulations, performance,
and visibility of writes between threads depend on runtime quantities no sound static argument in reach bounds.

## Genuine defects repaired in /repo ("fix:" commits)
See `known_findings.json`, key `fixed`: d9dd99a (C05/C08 periodic faces' right solvers uninitialised), f04aeba (C07 gravity), e12e53c (C07 CFL momentum),
0102bab (C16 advection without communication buffers), c0a883f (C09 high modes of viscoelastic predictions), 454753c (C16 receive pointers of the second buffer),
e00255a (C12 integral within one sample interval), 698d577 (C11 output of unknown type), 054dfef (C20 centroid on uninitialised memory),
d9846c1 (C03 derivative of line functions), fcad7c6 (C25 double free of models), 5c9cb91 (C26 grid data of vertices used at centroids),
29b7ae2 (C27 smallest spacing of coarsened grids), fa2ff2e (C27 grids too small for the levels), 04e4fe3 (C28 interval of line faces for quadrature),
3da1b9f (C29 shape functions of hexahedral sub-cells), d2c5f87 (C29 crash while simplifying the maps of sub-cells),
57fc95f (C30 direction of the 2D shear traction of a slipping fault). The C27 ones were found by the check of C27 itself (panels with 5 x 9, 13 x 17 points; 9 x 17 points and two levels).

## Known findings (not repaired, printed as KNOWN-FINDING)
* C09 `relaxation:memory variables are predicted to grow`: the viscoelastic predictor adds the relaxation of the memory variables with the opposite
  sign of the corrector (volume kernel). A repair changes the numerics of every viscoelastic set-up and its reference solutions; left to the maintainers.
* C03 `boundary:{TRIA3|TET4}: division by zero in mode N` (15 modes): uncancelled quotients of the generated tables `src/dg/generated/*.inc`; NaN in
  singular points (e.g. the last vertex). Regenerating the tables is no small fix.
* C26 `layout:reorder only with several partitions and time groups`: with `reorder_only`, `n_partitions`>1 and `n_groups`>1 the elements of a time group are not
  contiguous in the single file. Demonstrated by linking Partition::getElPr and Communication::nElsInSe: a line of 8 elements in two partitions and two groups is
  ordered 0 0 1 1 0 0 1 1, while the file says 4 4. Whether to refuse this combination or to reorder by time group only is a design decision.

## False alarms met and what was corrected
Alarms on code that turned out right changed the property or the check, never the list of findings:
* minimum/maximum chains, explicit rounding and reordered fits of refactorings (C01, C06, C08): values are judged, not their spelling;
* C04/C15: region priorities, redundant `min(syncInt, end-simTime)` and the missing slash in "edge_v/disp_" are observably equivalent and not judged;
* C21: a constant factor in the *absolute* CFL step is not observable (steps are relative); C22: edge weights handed to METIS are free;
* C23: the numbering order of faces is free; C25: minimum or maximum speeds of an element for the wave-speed ratio are both accepted if used consistently
  (documentation and code differ); a missing dry tolerance and bathymetry in [0, -tolerance) are unspecified;
* C26: precedence when both a seismic expression and a tsunami model are configured, and ties in the search for the best time step, are unspecified.
* C16: Gaspi::finSends compares pointers (always true); harmless because of double buffering and hence no violation.

## Planted bugs and what catches them
`seeded/<id>/` (each verified: builds, passes the stable tests, demonstration fails):

SEEDTABLE
Beyond these, mutation campaigns: `tools/mutp.py LIST` applies each edit of a list to a copy of /repo and runs the named checks. Lists kept: `tools/mutations/CNN.py`
(bugs, all caught: C03 19, C24 38, C25 46, C26 38, C27 51 of 52: the remaining one swaps the diagonal of a corner square, which is equivalent, C28 47 of 48: the transposed orientation is the same for reflections, C29 57 of 61: the other four are equivalent or do not apply, C30 22, C31 24) and `tools/mutations/ref*.py` (about 180 behaviour-preserving refactorings over all checks, all quiet). A further 25 bugs over time groups, partitions, communication and load balancing were all caught but one equivalent; refactorings with
standard containers and algorithms (sets, deques, pairs, transform, accumulate, ...) are kept in the engine's self-test `tools/stl_selftest.py`. The other checks were built with
20-40 mutations each in the same way (lists not kept). Gaps found this way and closed: aliasing of unrolled pointers (engine), freed objects reached through phi nodes (engine), dropped
default initialisers (C04), stale mesh after reordering (C26), write to the wrong fused run (C12), sends of incomplete steps (C10).

## Not reached by the tests of the repository
No test builds dg/Basis.cpp, io/Config.cpp, io/Receivers.cpp, main.cpp, parallel/{LoadBalancing,Shared,Gaspi,MpiRemix}.cpp, time/{Manager,TimeGroupStatic}.cpp, mesh/EdgeV.cpp,
data/Expression.cpp, impl/seismic/io/Config.cpp, io/WaveField, io/Vtk, the seismic and advection kernels of other configurations, EDGE-V's io/ExprTk, mesh/Refinement, models/*, io/Ucvm, or
the driver of EDGE-V, EDGEcut's driver; these are covered by C03, C04, C09-C18, C24-C27. EDGEpre's driver, faces, writers and C++ conversion: C28, its sub-cell grids and operators: C29. No test builds impl/seismic's internal boundary or sc/Kernels: C30, C31.

## Limits
* libxsmm kernels (library absent), GMSH/HDF5/METIS internals, Eigen and UCVM are outside; clang's front end and the engine are trusted.
* The engine does not model std::stringstream contents of refactorings, exceptions caught inside the code, qsort and snprintf; a check meeting them in code it judges reports that it cannot follow.
* Not linked into the current solver and not claimed: sc/{Init,Limiter,Steering,Memory}.hpp, sc/ibnd/{Init,SuperCellInit}, setups/RuptureInit.hpp, io/InternalBoundary.hpp.
* Unused code noted: io/ReceiversSf.hpp, `Recv.enTg`, `Message.recv.tg`, WaveField::write's i_time, valD of m_qpEval. No claims about them.
* Unspecified and not claimed: ReferenceValues of quantities the error norm's reference expression leaves unset, quadrature of lines with TL_O_SP points,
  6-digit coordinates in the background mesh, speeds an expression sets conditionally only (they carry over between points).
'''
def rules(pid):
    try: e = json.load(open(os.path.join(V, 'evidence', pid+'.json')))
    except OSError: return []
    return [(k, v['instances'], v['rule']) for k, v in e['coverage']['rules'].items()]
out = [HEAD]
for p in sorted(PROPS, key=lambda p: p['id']):
    if 'na' in p:
        out.append(f"### {p['id']} {p['title']} (not applicable)\n{p['na']}\n"); continue
    out.append(f"### {p['id']} {p['title']}\n{p['statement']}\n\nAnalysed: {', '.join('`'+f+'`' for f in p['files'])}.\n{NOTES.get(p['id'], '')}\nBounds: {p.get('bounds') or 'sizes and configurations enumerated in the check.'}\n\nRules:\n"+''.join(f'* `{k}` ({n}): {t}\n' for k, n, t in rules(p['id'])))
t = '| seed | property | needs | caught by |\n|---|---|---|---|\n'
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json'))); t += f"| {s} | {m['property']} | {m['needs']} | {m['property']} |\n"
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out)+TAIL.replace('SEEDTABLE', t))
