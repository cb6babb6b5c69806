#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique='',
         note='', claimed=True, reason=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, state=state, observe=observe, technique=technique,
                  note=note, claimed=claimed, reason=reason))


S = 'src/pyclaw/'

prop('C01', 'Periodic runs conserve every component exactly',
     'On a domain that is periodic in every direction, evolving a conservation law (a Riemann solver whose '
     'fluctuations sum to the flux difference) with any classic or SharpClaw solver in 1, 2 or 3 dimensions leaves '
     'the total of each conserved component, weighted by cell volume and by the capacity function where there is '
     'one, unchanged up to rounding. This holds for every order, limiter, dimensional splitting or transverse-wave '
     'option, reconstruction, time integrator, kernel language, fixed or variable step and number of steps, '
     'whether the solver is called directly or through a controller.',
     ['inputs', 'configurations'],
     'all initial data, grid shapes, cell sizes, step counts and solver options, for Riemann solvers of conservation laws',
     'The tests compare a few norms of a few runs to stored values; conservation is never asserted, and most '
     'combinations of dimension, order, limiter, splitting and capacity function are never run.',
     [S + 'classic/step1.f90', S + 'classic/step2.f90', S + 'classic/step2ds.f90', S + 'classic/step3.f90',
      S + 'classic/step3ds.f90', S + 'classic/flux2.f90', S + 'classic/flux3.f90', S + 'sharpclaw/flux1.f90',
      S + 'sharpclaw/flux2.f90', S + 'sharpclaw/flux3.f90', S + 'classic/solver.py', S + 'sharpclaw/solver.py',
      S + 'solver.py'],
     [('flux-difference form of every update', S + 'classic/step*.f90, flux*.f90'),
      ('periodic ghost cells equal to the opposite interior cells', S + 'solver.py')],
     technique='property-based testing: conservation invariant over generated problems, grids and solver options',
     note='Generated runs of the real compiled and Python kernels; sums compared in a stated rounding tolerance. '
          'Trusts the Riemann solvers of clawpack.riemann, which are outside this repository.')

prop('C02', 'A classic 1D step is the wave-propagation update',
     'One step of the classic one-dimensional solver changes the cells by exactly the documented wave-propagation '
     'update: the Godunov fluctuations plus, at order 2, the limited second-order correction fluxes, with dt/dx '
     'divided by the capacity function where there is one, for q-waves and f-waves and with the limiter chosen for '
     'each wave family. The Courant number it reports is the largest |speed| dt/dx (over the capacity) over the '
     'interfaces of the domain, and the Fortran and Python kernels give the same result.',
     ['inputs', 'configurations'],
     'all cell data, auxiliary data, grid sizes, time steps, orders, limiter choices and kernel languages',
     'The tests run a handful of limiters on a handful of profiles and compare one norm with a stored number.',
     [S + 'classic/step1.f90', S + 'classic/limiter.f90', S + 'classic/philim.f90', S + 'classic/solver.py',
      S + 'limiters/tvd.py'],
     [('step1 / step_hyperbolic', S + 'classic/step1.f90, ' + S + 'classic/solver.py'),
      ('wave limiting', S + 'classic/limiter.f90, ' + S + 'limiters/tvd.py')],
     technique='property-based differential testing against an independent reference model of the update',
     note='Differential against a from-scratch numpy model, to rounding; the Riemann solution itself is computed by '
          'the model for the linear and scalar problems.')

prop('C03', 'A classic 2D step is the documented split or unsplit update',
     'One step of the classic two-dimensional solver equals the documented algorithm: with dimensional splitting '
     'an x-sweep followed by a y-sweep, otherwise the unsplit update with no transverse waves, transverse '
     'increment waves, or transverse increment and correction waves, using the order, the capacity function (at '
     'any auxiliary index), f-waves and the limiters per wave family as configured. The reported Courant number is '
     'the largest over both directions; that of a split step is at least the largest over the cells of the domain.',
     ['inputs', 'configurations'],
     'all cell and auxiliary data, grid shapes (including non-square), cell sizes, time steps and solver options',
     'Existing tests compare a norm of a few 2D runs to stored values for one option set each.',
     [S + 'classic/step2.f90', S + 'classic/step2ds.f90', S + 'classic/flux2.f90', S + 'classic/limiter.f90',
      S + 'classic/solver.py'],
     [('step2, step2ds, flux2', S + 'classic/'), ('sweep ordering and workspace', S + 'classic/solver.py')],
     technique='property-based differential testing against an independent reference model of the update',
     note='Differential to rounding against a numpy model of the algorithm; Riemann solvers are called through their own '
          'f2py interface and trusted.')

prop('C04', 'A classic 3D step is the documented split or unsplit update',
     'One step of the classic three-dimensional solver equals the documented algorithm: with dimensional splitting '
     'x, y and z sweeps in turn, otherwise the unsplit update with the selected combination of transverse and '
     'double-transverse waves, using order, capacity function and limiters as configured. The reported Courant '
     'number is the largest over all three directions.',
     ['inputs', 'configurations'],
     'all cell and auxiliary data, grid shapes, cell sizes, time steps and solver options',
     'Existing tests compare a norm of two or three 3D runs to stored values.',
     [S + 'classic/step3.f90', S + 'classic/step3ds.f90', S + 'classic/flux3.f90', S + 'classic/solver.py'],
     [('step3, step3ds, flux3', S + 'classic/')],
     technique='property-based testing: reference model, axis-permutation and dimension-reduction relations',
     note='Exact algebraic relations and a reference model to rounding; Riemann solvers trusted.')

prop('C05', 'Ghost cells hold exactly what the boundary conditions say',
     'Before every step and every stage, each ghost cell of the solution and of the auxiliary array holds what the '
     'boundary condition of its side prescribes (copy of the nearest interior cell, periodic image, mirror image '
     'with the normal-momentum component negated for the solution only, or what the user function wrote), '
     'dimensions being filled in order so that corners are determined too. Interior values are not altered; user '
     'functions get the current state, dimension, time, ghosted arrays and ghost width, exactly once per side and '
     'filling; conditions may be changed between calls. A side whose condition is missing or unknown is refused.',
     ['inputs', 'configurations'],
     'all mixtures of conditions per side, in 1 to 3 dimensions, any ghost width, any component reflected, with and without auxiliary data',
     'Tests use one or two conditions per example and look at results far from corners and auxiliary ghost cells.',
     [S + 'solver.py', S + 'state.py', S + 'geometry.py'],
     [('boundary filling', S + 'solver.py'), ('copy between q and ghosted arrays', S + 'state.py')],
     technique='property-based testing against an independent model of every boundary condition',
     note='Exact comparison of all ghost cells, observed inside the run.')

prop('C06', 'Time stepping reaches the requested time within the CFL limit',
     'Evolving to a time ends exactly at that time or raises; every kept step had a Courant number at most the '
     'allowed maximum and a length at most the allowed maximum step, the next step is the one that gives the '
     'desired Courant number (clipped to the maximum step and to the end), at most the allowed number of steps is '
     'kept, and a rejected variable step leaves the solution and time as if it had never been tried, whatever the '
     'unit of time. With a fixed step every step is exactly as given, a step that does not divide the interval or '
     'whose Courant number is too large is refused, and the end is reached exactly. The status counts the kept '
     'steps and the largest Courant number, later calls continue where earlier ones ended, and asking for a time '
     'already reached changes nothing, now or for later calls.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of evolve calls, initial steps, desired and maximal Courant numbers, step limits, and solvers',
     'Tests only run a few problems to a final time and never look at individual steps, rejections, limits or repeated calls.',
     [S + 'solver.py', S + 'cfl.py', S + 'classic/solver.py', S + 'sharpclaw/solver.py'],
     [('evolve_to_time, get_dt, accept/reject', S + 'solver.py'), ('Courant bookkeeping', S + 'cfl.py')],
     technique='model-based property testing of call histories with an instrumented solver',
     note='Histories of calls checked against an independent model of the accepted steps.')

prop('C07', 'Source terms and step hooks are applied exactly as configured',
     'In every step that is kept, a classic solver applies the source term once for the full step after the '
     'hyperbolic update (Godunov splitting) or for half a step before and half a step after it (Strang splitting), '
     'and calls the before-step function exactly once beforehand; a SharpClaw solver adds the source, for the full '
     'step, to every stage and calls the before-step function once per step, or at each stage when asked. The '
     'state, time and step length handed to these functions are the current ones, what they change (the solution, '
     'auxiliary values, parameters of a Python Riemann solver) is used by the whole step, and when a step is '
     'rejected none of it remains.',
     ['inputs', 'histories', 'configurations'],
     'all splittings, source terms, step sizes including those with the Courant number exactly at its maximum, rejected steps',
     'Tests exercise one or two source examples through a final norm.',
     [S + 'classic/solver.py', S + 'sharpclaw/solver.py', S + 'solver.py'],
     [('ClawSolver.step', S + 'classic/solver.py'), ('SharpClawSolver.dq', S + 'sharpclaw/solver.py')],
     technique='property-based testing: recorded call histories and exact algebra against a model',
     note='Call log compared with a model, and results compared with recomposed steps.')

prop('C08', 'SharpClaw time integrators follow their defining formulas',
     'A SharpClaw step with Euler, SSP33, SSP104, a user Runge-Kutta tableau, a user linear multistep method, or '
     "the variable-step SSP multistep methods of orders 2 and 3 advances the solution by that method's formula, "
     'with stage times consistent with the abscissae and the documented starting steps of multistep methods. For a '
     'pure source problem, and for one with moving waves, the result equals an independent integrator step for '
     'step, whatever the step sizes, and rejected steps leave no trace in the history that multistep methods use.',
     ['inputs', 'configurations', 'histories'],
     'all explicit tableaux and multistep coefficients, right-hand sides depending on time and solution, step-size sequences',
     'Tests use two or three integrators on one example each with loose norms.',
     [S + 'sharpclaw/solver.py'],
     [('SharpClawSolver.step, ssp104, ssp22, update_saved_values', S + 'sharpclaw/solver.py')],
     technique='property-based differential testing against an independent ODE integrator model',
     note='Exact formulas re-implemented and compared to rounding.')

prop('C09', 'SharpClaw evaluates the documented semi-discretisation',
     'The spatial operator of SharpClaw, in a step and through its right-hand-side function alike, is the sum over '
     'dimensions of the fluctuations of Riemann problems between the values reconstructed at each interface plus '
     'the total fluctuation inside each cell, divided by cell width and capacity. The WENO reconstructions of '
     'order 5 to 17 reproduce point values from cell averages of polynomials up to the guaranteed degree and use '
     'the documented smoothness weights, and first-order and TVD reconstructions and the wave-based variants do as '
     'documented, identically in every dimension. Fortran and Python kernels agree, also in the Courant number, '
     'which is the largest over the interfaces of the domain.',
     ['inputs', 'configurations'],
     'all cell data, reconstruction orders, grid sizes, capacity functions and dimensions',
     'Tests run order 5 (and one run of order 17) to a final norm.',
     [S + 'sharpclaw/flux1.f90', S + 'sharpclaw/flux2.f90', S + 'sharpclaw/flux3.f90', S + 'sharpclaw/weno.f90',
      S + 'sharpclaw/reconstruct.f90', S + 'sharpclaw/solver.py', S + 'limiters/recon.py'],
     [('flux1/2/3', S + 'sharpclaw/'), ('weno kernels', S + 'sharpclaw/weno.f90')],
     technique='property-based differential testing against a reference WENO model derived from first principles',
     note='Reference reconstruction computed from polynomial interpolation, not from the generated kernels.')

prop('C10', 'Limiters obey their definitions and keep scalar solutions bounded',
     'Every wave limiter returns its documented function of the ratio of neighbouring waves and the local Courant '
     'number (strictly between 0 and 1), in the Python module and in the Fortran kernels alike, element by element '
     'and independent of the other elements. With first order at Courant number at most one a scalar conservation '
     'law, and with minmod, superbee, van Leer or monotonised-centered limiter linear advection, solved by the '
     'classic 1D solver never increases its total variation nor leaves the range of its data.',
     ['inputs', 'configurations'],
     'all wave ratios including zero, infinite and negative ones, limiter choices, scalar data and time steps',
     'Tests check the norm of a few runs with two limiters.',
     [S + 'limiters/tvd.py', S + 'classic/limiter.f90', S + 'classic/philim.f90', S + 'classic/step1.f90'],
     [('limiter functions', S + 'limiters/tvd.py'), ('limiter, philim', S + 'classic/')],
     technique='property-based testing: functional definitions, elementwise metamorphic relation, TVD invariant',
     note='Definitions re-implemented; total variation and range checked on generated runs.')

prop('C11', 'Grid coordinates always describe the current dimensions',
     'At any time, after any sequence of changes to the extents or cell counts of the dimensions, dimensions added '
     'to the grid or a new mapping, every coordinate query (centers, nodes, edges, with or without ghost cells, '
     'single cells, computational or mapped) agrees with uniform cells between the current bounds. Widths, bounds, '
     'counts and names reported by dimension, grid, patch and domain agree with one another, and a query never '
     'changes a later answer.',
     ['histories', 'inputs'],
     'all sequences of mutations and queries of a grid of 1 to 3 dimensions',
     'Tests build a grid once and query it once; cached arrays make the answer depend on the history.',
     [S + 'geometry.py'],
     [('coordinate caches', S + 'geometry.py')],
     technique='model-based (stateful) property testing of mutation/query histories',
     note='Model computes coordinates afresh from the current bounds.')

prop('C12', 'States and solutions are faithful, independent containers',
     'A deep copy of a state or solution has the same data (solution, auxiliary arrays, time, problem parameters '
     'however nested, capacity index, derived quantities, grid with names and units, mapping, patch levels and '
     'indices) and shares no mutable data with the original; changing one never changes the other, and it evolves '
     'exactly like the original. Values written into a state are read back unchanged through every view (ghosted '
     'arrays, the attributes of the solution and of the controller that owns it, the individual states), and the '
     "data of a state share no memory with a solver's work arrays.",
     ['histories', 'inputs'],
     'all states and solutions with any number of equations, auxiliary fields, dimensions and patches',
     'Tests copy nothing but simple states.',
     [S + 'state.py', S + 'solution.py', S + 'geometry.py'],
     [('__deepcopy__, attribute delegation', S + 'solution.py, ' + S + 'state.py')],
     technique='property-based testing: copy/mutate histories against a plain-data model',
     note='Observable data compared exactly.')

prop('C13', 'ASCII output reads back as the solution that was written',
     'Writing a solution in ASCII format and reading the frame gives a solution with the same time, patches '
     '(levels, indices, bounds, cell counts, dimension names, order), equations, values, problem parameters, '
     'mapping and, where written, auxiliary values, to the precision of the format, for 1 to 3 dimensions, several '
     'patches, any finite values, any frame number, prefix and directory. Files of the same format written by the '
     'Fortran codes (values over any number of lines, short or missing optional header lines, auxiliary values in '
     "the frame's own file or else in that of frame 0) are read likewise. Reading replaces what the solution held, "
     'auxiliary values that are not there are marked undefined, and a missing or truncated file is refused and '
     'leaves the solution as it was.',
     ['inputs', 'configurations'],
     'all solutions and output options',
     'Tests round-trip one fixed example per dimension.',
     [S + 'fileio/ascii.py', S + 'solution.py'],
     [('write / read', S + 'fileio/ascii.py')],
     technique='property-based round-trip testing plus an independent parser of the file',
     note='Relative precision of the format (9 significant digits) is the tolerance.')

prop('C14', 'HDF5 output reads back bit for bit',
     'Writing a solution in HDF5 format and reading the frame returns the same time (per patch), patches in the '
     'order of their indices with the same levels, bounds, dimension names and units, and bitwise the same '
     'solution and, where written, auxiliary values, for any number of patches, dimensions, compression and chunk '
     'options, frame numbers and prefixes. Auxiliary values that are not there are marked undefined, and a missing '
     'or truncated file is refused and leaves the solution as it was.',
     ['inputs', 'configurations'],
     'all solutions and output options',
     'Tests round-trip one fixed single-patch example.',
     [S + 'fileio/hdf5.py', S + 'solution.py'],
     [('write / read', S + 'fileio/hdf5.py')],
     technique='property-based round-trip testing, with direct reads of the file through h5py',
     note='Exact equality.')

prop('C15', 'Binary AMR output is read back exactly',
     'Reading a frame of raw binary output (64- or 32-bit, any number of ghost cells, patches, levels, components, '
     '1 to 3 dimensions, with or without an auxiliary file of its own or of frame 0) gives exactly the interior '
     'values, patch bounds, levels and time that were written. Auxiliary values that are not there are marked '
     'undefined, and a truncated file is refused.',
     ['inputs', 'configurations'],
     'all well-formed binary frames',
     'Tests read two stored files.',
     [S + 'fileio/binary.py', S + 'fileio/ascii.py', S + 'solution.py'],
     [('read', S + 'fileio/binary.py')],
     technique='property-based round-trip testing against an independent writer of the format',
     note='The writer follows the documented AMRClaw layout.')

prop('C16', 'Writing output never changes the solution',
     'Writing a frame in any supported format (ASCII, HDF5, VTK), with or without auxiliary values and derived '
     'quantities, leaves the solution, its states, grid and the option dictionaries passed in exactly as they were '
     'and is complete on disk when the call returns, so that output never affects the computation. The VTK files '
     'of a 2D solution contain, in text or binary mode as asked, the geometry of every patch below its level, the '
     'solution values of every component, and mark exactly the cells that a finer patch covers.',
     ['inputs', 'configurations', 'histories'],
     'all solutions, formats and options, and any sequence of writes',
     'Tests never compare the solution before and after output.',
     [S + 'fileio/ascii.py', S + 'fileio/hdf5.py', S + 'fileio/claw_vtk.py', S + 'solution.py', S + 'controller.py'],
     [('write functions', S + 'fileio/')],
     technique='property-based testing: deep snapshot comparison around generated writes',
     note='Exact comparison of all observable data.')

prop('C17', 'A controller run outputs every requested frame at its time',
     'For every output style (equally spaced times, given times, every so many steps) a controller run writes one '
     'frame per requested output, numbered consecutively from the given start, whose time is exactly the requested '
     'time (or whose step count is the requested one) and whose data, format and options are the solution at that '
     'moment as asked; frames kept in memory are independent snapshots that agree with the files. Restarting from '
     'any written frame reproduces the remaining frames, running again continues the numbering, a run with nothing '
     'to do changes nothing, and existing output is not overwritten without permission. If the process dies during '
     'a run, every frame, functional and gauge record finished before is complete on disk.',
     ['histories', 'configurations', 'inputs'],
     'all output styles, frame counts, start times, formats and restart points',
     'Tests only use the default style and look at the last frame.',
     [S + 'controller.py', S + 'solution.py', S + 'solver.py'],
     [('Controller.run', S + 'controller.py')],
     technique='property-based testing of run histories against a model of the output schedule',
     note='Files, in-memory frames and directly evolved solutions compared.')

prop('C18', 'Gauges record the cell that contains them at every step',
     'A gauge inside the domain records, at the start and after every kept step, the time and the requested '
     'quantities of the cell that contains it, in memory over all runs and on file for the latest run, and a gauge '
     'outside records nothing. Gauge files written by AMR codes (stationary or Lagrangian, text or binary, 1 to 3 '
     'dimensions), by the gauge object itself, or converted from the old single-file format read back as the same '
     'location, times, levels and values. Files that contradict their own header and incomplete gauges are '
     'refused.',
     ['histories', 'inputs', 'configurations'],
     'all gauge positions, grids, run histories and gauge files',
     'Tests run one gauge example.',
     [S + 'solver.py', S + 'geometry.py', S + 'gauges.py', S + 'controller.py'],
     [('add_gauges, write_gauge_values', S + 'geometry.py, ' + S + 'solver.py'), ('GaugeSolution', S + 'gauges.py')],
     technique='property-based testing: recorded step history against gauge output; round trips',
     note='Compared with the instrumented history of the same run.')

prop('C19', 'Runs are reproducible and independent of earlier runs',
     "A run's result is a function of its own inputs only: repeating it in the same process, in a fresh process, "
     'after or interleaved with any other runs with other solvers, dimensions, Riemann solvers, sizes or '
     'parameters, or in separate calls with the same steps, gives bitwise the same solution, with parameter values '
     'of zero or false as with any other. A one-step method used again with a fixed step on another solution of '
     'the same shape (with other extents, data, auxiliary values, parameters or capacity function) gives what a '
     'new solver gives, and the settings of new objects do not depend on what was done to earlier ones.',
     ['histories', 'configurations'],
     'all sequences of runs in one process',
     'Each test is a single run; leakage through module-level Fortran state depends on the sequence.',
     [S + 'classic/solver.py', S + 'sharpclaw/solver.py', S + 'sharpclaw/ClawParams.f90', S + 'sharpclaw/workspace.f90',
      S + 'sharpclaw/reconstruct.f90', S + 'state.py', S + 'solver.py'],
     [('module reload and parameter passing', S + 'classic/solver.py'), ('allocation of module arrays', S + 'sharpclaw/')],
     technique='stateful property testing: random run histories compared with a fresh process',
     note='Bitwise comparison.')

prop('C20', 'Misconfiguration is refused instead of computed',
     'A run that cannot be honoured is refused by raising and leaves the solution unchanged: a solver attribute '
     'that does not exist, a limiter list of the wrong length, missing or unknown boundary conditions, a missing '
     'user boundary function, an unknown time integrator, output style or file format, a missing Riemann solver, a '
     'desired Courant number above the maximum, a mapped grid without capacity function, or a fixed step that does '
     'not divide the interval; boundary conditions, Courant numbers, steps, mapping and output settings also after '
     'successful runs. Dimensions without extent or cells, duplicate dimension names and incomplete solutions are '
     'refused likewise, and validity queries tell the truth. Valid configurations are accepted, and a corrected '
     'one runs like a fresh one.',
     ['configurations', 'inputs'],
     'all combinations of valid and invalid settings',
     'Tests never set anything invalid.',
     [S + 'solver.py', S + 'classic/solver.py', S + 'sharpclaw/solver.py', S + 'controller.py', S + 'solution.py', S + 'state.py',
      S + 'geometry.py'],
     [('is_valid, check_validity, __setattr__', S + 'controller.py, ' + S + 'solver.py')],
     technique='property-based testing over generated valid and invalid configurations',
     note='The accepted/refused verdict is compared with the documented one.')

prop('C21', 'Solutions respect the symmetries of the equations',
     'For a homogeneous problem, shifting periodic data by whole cells, moving the domain or the start time, '
     'mirroring an axis (with the normal component negated), exchanging axes, scaling time and space together, '
     'scaling the data of a linear problem, or extending data constantly into an extra dimension changes the '
     'computed solution in exactly the same way, up to rounding, for every classic and SharpClaw solver whose '
     'Riemann solver has that symmetry. Advection with Courant number one is an exact shift.',
     ['inputs', 'configurations'],
     'all data, grid shapes, solver options and step counts for which the symmetry holds',
     'No test relates two runs.',
     [S + 'classic/', S + 'sharpclaw/', S + 'solver.py'],
     [('identical treatment of every cell, side and dimension', S + 'classic/, ' + S + 'sharpclaw/')],
     technique='property-based metamorphic testing over pairs of runs',
     note='Equality to rounding between transformed runs.')

prop('C22', 'Steady states stay steady and closed boxes lose nothing',
     'Constant data remain constant (up to rounding) under extrapolation and periodic boundaries for every solver '
     'and option, also with variable coefficients where the equations allow it; a resting fluid in a closed box of '
     'walls stays at rest, and so does a lake over any bottom with a well-balanced Riemann solver. With walls on '
     'all sides and a mirror-symmetric Riemann solver, the totals of mass and energy (or pressure) are conserved '
     'by gas dynamics, shallow water and acoustics.',
     ['inputs', 'configurations'],
     'all constant states, Riemann solvers, dimensions and options; all data for closed boxes',
     'No test asserts equilibrium preservation.',
     [S + 'solver.py', S + 'classic/', S + 'sharpclaw/'],
     [('wall and extrapolation ghost cells', S + 'solver.py')],
     technique='property-based invariant testing of generated runs',
     note='Stated rounding tolerance.')

prop('C23', 'Derived quantities and functionals are evaluated on what is output',
     'Derived-quantity files and functional files produced during a run contain, for every output frame and for no '
     "other moment, the user function applied to the solution at that frame's time (functionals: the sum over the "
     'cells of the absolute values, in the order in which they were declared), with the right time stamp, '
     'component count and file name, also when the solution is changed between runs. They read back as what the '
     'user function computed.',
     ['inputs', 'histories', 'configurations'],
     'all user functions, numbers of derived components and output schedules',
     'One test uses a functional.',
     [S + 'controller.py', S + 'state.py', S + 'fileio/ascii.py', S + 'fileio/hdf5.py'],
     [('compute_p, compute_F', S + 'controller.py')],
     technique='property-based testing: output files against recomputation from the frames',
     note='Exact up to file format precision.')

prop('C24', 'Text data lines and run-time options are parsed faithfully',
     'The helpers that read data lines, Fortran-style numbers and run-time options from the command line return '
     'the values that were written there, for any number of values, types, comments and formatting the format '
     'allows, and function handles, frame counters and argument variants stay independent of one another. The '
     'comparison helpers (of numbers, arrays or two solutions) report a difference exactly when it exceeds the '
     'tolerance, with undefined values never equal.',
     ['inputs'],
     'all well-formed data lines, option strings and arrays',
     'Tests parse only what the examples use.',
     [S + 'util.py'],
     [('read_data_line, _info_from_argv, check_diff', S + 'util.py')],
     technique='property-based round-trip testing (print then parse)',
     note='Exact round trips.')

F = 'src/forestclaw/'
prop('C25', 'ForestClaw frames keep blocks and ranks and leave other formats alone',
     'Writing a solution on ForestClaw patches in ForestClaw format and reading it back, and reading a file as '
     'ForestClaw writes it, gives the same time, patches (levels, indices, block numbers, MPI ranks, bounds, cell '
     'counts), values and auxiliary values in 1, 2 or 3 dimensions, to the precision of the format. Deep copies '
     'and the frames a run keeps in memory keep block numbers and ranks. Using the format, in any order with the '
     'others in one process, never changes what the ASCII and HDF5 formats write or read, and a truncated file is '
     'refused.',
     ['inputs', 'histories'],
     'all solutions on ForestClaw patches and all histories of reads and writes in several formats within a process',
     'No stable test writes or reads the format.',
     [F + 'fileio/ascii.py', F + 'fileio/__init__.py', F + 'geometry.py', S + 'fileio/ascii.py', S + 'solution.py'],
     [('patch headers with block number and rank', F + 'fileio/ascii.py'), ('format dispatch', S + 'solution.py'),
      ('patch attributes', F + 'geometry.py')],
     technique='property-based round-trip testing, and model-based histories of reads and writes in several formats',
     note='Values to the 9 digits of the format; headers also read by an independent reader.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['qtext']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
            assert len(d['title']) <= 80
            f.write(json.dumps(d) + '\n')
    checks = []
    na = []
    for p in P:
        if p['claimed'] and os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': 'bash check.sh %s' % p['id'],
                           'thorough_cmd': 'bash check.sh %s --tier thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['reason'] or 'check under construction'})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: everything is observed through the public API. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
