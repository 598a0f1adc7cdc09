MP = 'src/fv/mpfao/tdympfao.c'
SN = 'src/fv/mpfao/tdympfao_snes.c'
TS = 'src/fv/mpfao/tdympfao_ts.c'
prop('C08', 'Richards step residual is the MPFA-O discretization and conserves mass',
     'For every mesh of hexahedra or prisms with vertical sides, material field, pressure field and boundary condition, the residual of a Richards step in MPFA-O - in the form for nonlinear solves, for time steppers, with a transient variable, or with the stored water as an unknown (DAE) - is, cell by cell, '
     'the change of stored water plus the sum over its faces of upwinded fluxes given by the multi-point flux approximation (continuity of flux and of pressure on each sub-face). '
     'What leaves a cell through an interior face enters its neighbour: with no-flow boundaries the residuals sum to the change of stored mass, with any number of processes and any numbering of cells and vertices.',
     ['inputs', 'configurations'], 'all meshes, materials, states, boundary conditions, numberings, process counts',
     'the regression tests compare a handful of runs on uniform boxes with stored numbers; an error that vanishes on uniform cells, scalar permeability or one process is invisible to them',
     [MP, SN, TS, 'src/fv/share/tdymeshplex.c'],
     [('transmissibilities', MP + ':ComputeGMatrix_MPFAO, ComputeTransmissibilityMatrix'), ('step residual', SN + ':TDyMPFAOSNESFunction'), ('fluxes', TS + ':TDyMPFAOIFunction_Vertices')],
     'exact comparison on planar-faced cells (gravity included); conservation on non-planar cells', 'property-based testing against an independent reference discretization; conservation invariant; 1 to 3 processes',
     observe=[SN + ':TDyMPFAOSNESFunction'])
prop('C10', 'Richards Jacobians are the derivatives of the residuals Newton is given',
     'For every mesh, material, state and boundary condition, the matrix a nonlinear solve or an implicit time stepper receives for Richards flow with MPFA-O is the derivative of the residual '
     'it receives with respect to the unknown pressures (including the coupling to every cell around a vertex, and the shifted rate term of the time-stepper form), wherever that residual is differentiable, for any number of processes.',
     ['inputs', 'configurations'], 'all meshes, materials, states, boundary conditions, directions of differentiation',
     'a wrong Jacobian still converges on the small tested problems, only slower or to a cut time step; no test looks at a single entry',
     [SN, TS, 'src/fv/mpfao/tdympfao.c'],
     [('step Jacobian', SN + ':TDyMPFAOSNESJacobian'), ('flux Jacobian', TS + ':TDyMPFAOIJacobian_Vertices'), ('rate term', TS + ':TDyMPFAOIJacobian_Accumulation')],
     'Dirichlet boundaries need a boundary pressure function (otherwise the boundary pressure follows the cell and is left out of the Jacobian by design); rows crossing a switch within the difference step are left out',
     'property-based testing: Jacobian against difference quotients of the residual along unit and dense directions; 1 to 2 processes',
     observe=[SN + ':TDyMPFAOSNESJacobian'])
prop('C11', 'FV-TPF: residual is the two-point scheme, conserves mass, has its exact Jacobian',
     'With the two-point-flux discretization, for every mesh, material field, pressure field and per-face boundary type, the residual of a Richards step is cell by cell the change of stored water plus upwinded two-point '
     'fluxes (distance-weighted harmonic permeability, gravity, no flux where nothing is mobile, no inflow through a seepage face at or below reference pressure); with no-flow boundaries residuals sum to the change of stored mass; '
     'the matrix given to Newton is the derivative of the residual wherever that is differentiable. The boundary type comes from the option, or per face from the function the user sets. Any number of processes and any numbering.',
     ['inputs', 'configurations'], 'all meshes, materials, states, boundary types, numberings, process counts',
     'no reliable test runs this discretization at all',
     ['src/fv/fvtpf/tdyfvtpf_snes.c', 'src/fv/fvtpf/tdyfvtpf.c', 'src/fv/share/tdymeshplex.c'],
     [('residual', 'src/fv/fvtpf/tdyfvtpf_snes.c:TDyFVTPFSNESFunction'), ('Jacobian', 'src/fv/fvtpf/tdyfvtpf_snes.c:TDyFVTPFSNESJacobian'), ('face geometry', 'src/fv/share/tdymeshplex.c:ComputeGeoAttrOfFaces')],
     'exact comparison on planar-faced cells; conservation on non-planar cells', 'property-based testing against an independent reference discretization; conservation invariant; Jacobian against difference quotients; 1 to 3 processes',
     observe=['src/fv/fvtpf/tdyfvtpf_snes.c:TDyFVTPFSNESFunction'])
prop('C07', 'Steady MPFA-O system is the multi-point flux balance and is linear-exact',
     'For every mesh with vertical sides, material field, forcing and boundary pressure, the matrix A and right-hand side b assembled for the steady problem with MPFA-O satisfy, for every pressure p and cell, '
     '(A p - b)_cell = sum of multi-point fluxes out of the cell (boundary faces included) minus the forcing times the cell volume, with any numbering of cells and vertices and any number of processes.',
     ['inputs', 'configurations'], 'all meshes, tensors, boundary functions, forcings, numberings, process counts',
     'no test assembles this system; errors at corner vertices only change boundary values there',
     ['src/fv/mpfao/tdympfao_steady.c', 'src/fv/mpfao/tdympfao.c'],
     [('assembly', 'src/fv/mpfao/tdympfao_steady.c:TDyMPFAOComputeSystem_*'), ('corner transmissibilities', 'src/fv/mpfao/tdympfao.c:ComputeTransmissibilityMatrix_ForBoundaryVertex_NotSharedWithInternalVertices')],
     'planar-faced cells; a boundary pressure function is set', 'property-based testing against an independent assembly; 1 to 2 processes',
     observe=['src/fv/mpfao/tdympfao.c:TDyMPFAOComputeSystem'])
PX = 'src/fv/share/tdymeshplex.c'
prop('C05', 'The finite-volume mesh mirrors the input mesh, on every process',
     'For every mesh of hexahedra or of prisms, in any numbering of cells and vertices and on any number of processes, the mesh the finite-volume methods work on describes the input mesh: each local cell, face and vertex is one of '
     'the input and lists exactly the cells, faces, vertices and sub-cells that touch it; every face normal is a unit vector pointing from its first to its second cell; volumes, areas, sub-face areas and centroids are exact; boundary faces '
     '(also those TDyGetBoundaryFaces returns, for the cells a process owns) are exactly those with one cell in the whole mesh, numbered without gaps; owned cells partition the mesh, carry their natural (input) number, and have all their '
     'face- and vertex-neighbours present locally.',
     ['inputs', 'configurations'], 'all meshes, numberings and process counts',
     'tests only compare pressures of a few box runs; a wrong neighbour or orientation in a rare vertex configuration, or on one rank, passes them',
     [PX, 'src/fv/share/tdymesh.c', 'src/tdycore.c'],
     [('construction', PX + ':TDyMeshCreateFromPlex'), ('accessors', 'src/fv/share/tdymesh.c:TDyMeshGet*'), ('distribution and boundary label', 'src/tdycore.c:TDySetFromOptions')],
     'areas, centroids and volumes are compared on planar-faced cells; edges and cell neighbour lists, which nothing uses, are left out', 'property-based testing against an independent connectivity and geometry computation; 1 to 5 processes; AddressSanitizer',
     observe=[PX + ':TDyMeshCreateFromPlex'])
TH, SAL = 'src/fv/mpfao/tdympfao_th_ts.c', 'src/fv/mpfao/tdympfao_snes_salinity.c'
prop('C12', 'Thermal mode: coupled water and energy residual and Jacobian (MPFA-O)',
     'In thermal mode, for every mesh, material field (permeability, thermal conductivity, porosity, soil density and heat capacity), pressure and temperature field, rate of change and boundary condition, the residual given to the time stepper is, '
     'cell by cell, the rate of stored water plus upwinded multi-point water fluxes, and the rate of stored energy (water and soil) plus upwinded enthalpy fluxes plus multi-point heat conduction; boundary faces use the boundary pressure and temperature '
     'functions, or the cell values without one. With no-flow boundaries the fluxes of water and energy sum to zero. With closed boundaries the pressure columns (at constant pressure in time) and, without water flow, the temperature columns of the matrix '
     'are the derivatives of the residual. Any number of processes and any numbering.',
     ['inputs', 'configurations'], 'all meshes, materials, states, rates, boundary conditions, numberings, process counts',
     'one regression run on a uniform 2x2x2 box is the only test; it fixes no coefficient by itself',
     [TH, MP], [('residual', TH + ':TDyMPFAOIFunction_TH'), ('Jacobian', TH + ':TDyMPFAOIJacobian_TH'), ('state', MP + ':TDyUpdateState_TH_MPFAO'), ('conduction', MP + ':ComputeTransmissibilityMatrix')],
     'gravity 0 (listed finding); the listed findings about the energy rate and the Jacobian limit what is compared; planar faces', 'property-based testing against an independent reference discretization; conservation invariant; Jacobian against difference quotients; 1 to 3 processes; AddressSanitizer',
     observe=[TH + ':TDyMPFAOIFunction_TH'])
prop('C13', 'Salinity mode: coupled water and salt step residual, conservation of both',
     'In salinity mode, for every mesh, material field (permeability, saline diffusivity, molecular weight, porosity), pressure and concentration field and boundary condition, the residual of a step is, cell by cell, the change of stored water plus upwinded '
     'multi-point water fluxes with the density and viscosity of the brine, and the change of stored salt plus the salt carried by that water (upstream concentration) plus multi-point diffusion. With no-flow boundaries the residuals sum to the change of stored '
     'water and of stored salt. Any number of processes and any numbering.',
     ['inputs', 'configurations'], 'all meshes, materials, states, boundary conditions, numberings, process counts',
     'no reliable test runs this mode at all',
     [SAL, MP, 'src/fv/mpfao/tdympfao_utils.c'], [('residual', SAL + ':TDyMPFAOSNESFunction_Salinity'), ('fluxes', SAL + ':TDyMPFAOIFunction_Vertices_Salinity'), ('state', MP + ':TDyUpdateState_Salinity_MPFAO'), ('diffusion', MP + ':ComputeTransmissibilityMatrix')],
     'exact comparison on planar faces; conservation on non-planar cells; Dirichlet and no-flow boundaries', 'property-based testing against an independent reference discretization; conservation invariant; 1 to 3 processes; AddressSanitizer',
     observe=[SAL + ':TDyMPFAOSNESFunction_Salinity'])
TI = 'src/tdyti.c'
prop('C14', 'A run reaches its target time in accepted steps that solve the step equations',
     'Running to a time advances exactly to it and never past it, whatever the sequence of targets, step-size settings and solver outcomes. Each attempt uses the current step size, shortened only to land on the target; '
     'an accepted step becomes the previous solution of the next and lets the step grow by the growth factor up to the maximum (a step shortened only to land on the target does not shrink later ones); '
     'a failed solve is retried from the last accepted solution with the step reduced, and 25 failures of one step end the run with an error. '
     'With the real solver, every accepted solution satisfies the discrete equations of its step to the solver tolerance. The same holds under the PETSc time stepper (also with a transient variable or with the stored water as an unknown of its own), and all processes take the same steps.',
     ['histories', 'fault_sequences'], 'all sequences of targets and step sizes, all patterns of solver failures, Richards and salinity, MPFA-O and FV-TPF',
     'the tests run a few steps that all converge; a solve that fails at a particular step, or a target hit by a shortened step followed by another target, is never exercised',
     [TI, 'src/tdycore.c', 'src/tdydriver.c'],
     [('step loop', TI + ':TDyTimeIntegratorRunToTime'), ('step size', TI + ':TDyTimeIntegratorUpdateDT, TDyTimeIntegratorSetTargetTime'), ('retry', 'src/tdycore.c:TDyTimeCut'), ('set-up of a run', 'src/tdydriver.c:TDyDriverInitializeTDy')],
     'schedule parts replace the nonlinear solver by a scripted one; the reference residual is checked on the first three accepted steps of a real run',
     'stateful property-based testing with injected solver failures against a model of the schedule; accepted steps against an independent discretization; 1 to 2 processes',
     state=[('time, dt, dt_save, istep', 'clock, current step, remembered step, accepted steps', TI)], observe=[TI + ':TDyTimeIntegratorRunToTime'])
IO = 'src/tdyio.c'
prop('C15', 'Output files hold the accepted states; a restart continues the same run',
     'Whatever the sequence of accepted and failed steps, output and checkpoint intervals and run targets, every output file a run writes (HDF5, its XDMF description, ASCII) holds exactly the scheduled accepted states - time, and liquid pressure and saturation of each cell '
     'in natural order, on any number of processes; failed attempts leave no trace. A checkpoint holds all unknowns of the accepted state in natural order, and a run started from it takes the same steps and reaches the same states as the run that wrote it.',
     ['histories', 'configurations', 'crash_points'], 'all step outcomes, intervals, targets, output modes, modes and discretizations, process counts, stopping points',
     'tests compare final pressures only; no test reads an output file or restarts from a checkpoint',
     [IO, 'src/tdyti.c', 'src/tdycore.c', 'src/tdydriver.c'],
     [('output', IO + ':TDyIOWriteVec, TDyIOWriteHDF5Var, TDyIOWriteXMFHeader, TDyIOWriteAsciiViewer'), ('checkpoint', IO + ':TDyIOOutputCheckpoint'), ('schedule', 'src/tdyti.c:TDyTimeIntegratorRunToTime'), ('restart', IO + ':TDyIOReadIC')],
     'scripted solver in the output parts; same number of processes before and after a restart; geometry in files compared on one process', 'stateful property-based testing: files read back against a model of the accepted steps; round-trip of checkpoints against the uninterrupted run; 1 to 3 processes',
     observe=[IO + ':TDyIOWriteVec', IO + ':TDyIOOutputCheckpoint'])
prop('C16', 'Program, files, options and defaults give the same simulation',
     'Every combination of sources for porosity, permeability, residual saturation, thermal, soil and saline properties, initial condition (set by the program, file, random field, default), boundary pressure and temperature, mode, discretization and mesh describes one simulation: setters called by the program win over files, '
     'files over options, options over defaults; cell values from files (natural order, any number of processes) reach their cells; and the residuals and diagnostics equal those of the simulation whose values are all set by the program. Input files that are missing, unreadable or of the wrong size end in an error.',
     ['configurations', 'inputs'], 'all combinations of sources, values, dataset names, modes, numberings and process counts',
     'tests use one fixed source per value; a value that is ignored, overridden or put in the wrong cell only changes numbers nobody compares',
     ['src/tdydriver.c', IO, 'src/tdyconditions.c', 'src/materials/tdymaterialproperties.c', 'src/tdycore.c'],
     [('set-up order', 'src/tdydriver.c:TDyDriverInitializeTDy'), ('files of cell values', IO + ':TDyIOReadPermeability, TDyIOReadPorosity, TDyIOReadIC'), ('options', 'src/tdycore.c:TDySetFromOptions'), ('function registry', 'src/tdyconditions.c:TDyRegisterFunction')],
     'permeability files hold three values per cell (isotropic files are a listed finding)', 'property-based differential testing: configured simulation against the same simulation set by the program; 1 to 3 processes; AddressSanitizer',
     observe=['src/tdydriver.c:TDyDriverInitializeTDy'])
prop('C17', 'Diagnostics and regression files report the state of every cell',
     'After any history of setting solutions, updating the state and the diagnostics, and taking steps, the liquid saturation, liquid mass (density x porosity x saturation x volume) and liquid pressure retrieved are those of the state at the last update, one value per cell in natural order, '
     'for every mode, number of unknowns, numbering and number of processes. A regression file lists the minimum, maximum and mean of each unknown and, for the requested number of cells per process, the values of exactly the cells it names.',
     ['histories', 'configurations'], 'all histories of updates and reads, modes, meshes, numberings, process counts, cells per process',
     'tests compare a few cells of one-unknown or uniform states, where order and unknown mix-ups are invisible',
     ['src/tdycore.c', 'src/tdyregression.c', 'src/tdysalinity.c', 'src/tdyrichards.c', 'src/tdyth.c'],
     [('diagnostics', 'src/tdycore.c:TDyUpdateDiagnostics, TDyGetLiquidSaturation, TDyGetLiquidMass, TDyGetLiquidPressure'), ('regression files', 'src/tdyregression.c:TDyRegressionOutput')],
     'numbers in a regression file are positions in the solution vector', 'stateful model-based testing against independently computed states; 1 to 3 processes; AddressSanitizer',
     observe=['src/tdycore.c:TDyUpdateDiagnostics', 'src/tdyregression.c:TDyRegressionOutput'])
WYF, BDF, FEF = 'src/fe/tdywy.c', 'src/fe/tdybdm.c', 'src/fe/tdyfe.c'
prop('C18', 'Steady mixed finite elements (WY, BDM) assemble the discrete Darcy system',
     'For every quadrilateral (2D) or hexahedral (3D) mesh, cell-wise permeability tensor (however it was given), forcing and boundary pressure function, the matrix and right-hand side TDyWYComputeSystem and TDyBDMComputeSystem produce are those of the '
     'Wheeler-Yotov multipoint flux method and of the BDM1 mixed method (lumped or full quadrature as selected), whose velocity block is symmetric; without a boundary function the boundary pressure is zero. '
     'Assembling again gives the same system, and so does any numbering, any size and position of the mesh and any number of processes.',
     ['inputs', 'configurations'], 'all meshes, tensors, boundary and forcing functions, quadratures, numberings, process counts',
     'the regression tests compare error norms of a few manufactured problems on uniform meshes with diagonal or constant tensors',
     [WYF, BDF, FEF, 'src/materials/tdymaterialproperties.c'],
     [('WY system', WYF + ':TDyWYComputeSystem, TDyWYLocalElementCompute'), ('BDM system', BDF + ':TDyBDMComputeSystem, IntegratePressureBoundary'), ('maps', FEF + ':CreateCellVertexMap, CreateCellVertexDirFaceMap'), ('tensors in 2D', 'src/tdycore.c:MaterialPropCreate')],
     'planar faces; BDM compared after eliminating the velocities; up to 12 cells', 'property-based testing against independent element assemblies (own BDM1 nodal basis); 1 to 3 processes; AddressSanitizer',
     observe=[WYF + ':TDyWYComputeSystem', BDF + ':TDyBDMComputeSystem'])
prop('C19', 'Transient Wheeler-Yotov residual: stored water, multipoint fluxes, forcing',
     'For every quadrilateral or hexahedral mesh, material field (permeability, porosity, residual saturation), saturation and relative permeability curves, pressure field and rate of change, the residual the time stepper gets from the WY discretization is, cell by cell, '
     'porosity times the change of saturation times the cell volume, plus the divergence of the velocities recovered with the mobility of every cell at its current pressure, minus the integrated forcing; no earlier evaluation or assembly changes it, nor the numbering or the number of processes.',
     ['inputs', 'histories', 'configurations'], 'all meshes, materials, curves, sequences of states, numberings, process counts',
     'the only test stays at a constant pressure, where the residual is zero whatever the coefficients are',
     [WYF, FEF], [('residual', WYF + ':TDyWYResidual'), ('velocities', WYF + ':TDyWYRecoverVelocity'), ('state', WYF + ':TDyUpdateState_WY')],
     'relative permeabilities above 1e-9; planar faces; up to 12 cells', 'property-based testing of sequences of evaluations against an independent assembly; 1 to 3 processes; AddressSanitizer',
     observe=[WYF + ':TDyWYResidual'])

prop('C09', 'Water at rest stays at rest: hydrostatic states are equilibria',
     'With gravity, water of constant density whose pressure falls hydrostatically with height is an equilibrium of the step residual: no water moves between cells nor through a closed, open (hydrostatic boundary pressure) or seepage boundary, and in salinity mode '
     'with uniform concentration no salt moves. It holds for MPFA-O (step and transient-variable forms) on box-shaped cells of any sizes with diagonal permeabilities that vary from cell to cell, with the two-point G matrix for a uniform permeability, '
     'for FV-TPF on the same cells, with any unsaturated or saturated curves, any numbering and any number of processes.',
     ['inputs', 'configurations'], 'all meshes of boxes, materials, curves, reference pressures, boundary types, numberings, process counts',
     'the regression tests with gravity compare stored numbers of a transient; a gravity term that does not balance the pressure term would be stored along with them',
     [TS, MP, 'src/fv/fvtpf/tdyfvtpf_snes.c', 'src/fv/mpfao/tdympfao_utils.c'],
     [('gravity term', MP + ':ComputeGravityDiscretization'), ('fluxes', TS + ':TDyMPFAOIFunction_Vertices'), ('two-point fluxes', 'src/fv/fvtpf/tdyfvtpf_snes.c:TDyFVTPFSNESFunction')],
     'skewed cells, full tensors and varying permeability with the two-point G matrix are listed findings (the two-point gravity term does not balance the multi-point pressure flux)',
     'property-based testing of an equilibrium invariant; 1 to 3 processes', observe=[SN + ':TDyMPFAOSNESFunction'])
F90 = 'src/f90-mod/tdycoremod.F90'
prop('C20', 'A Fortran program gets the simulation a C program gets',
     'Whatever functions a Fortran program registers, selects and sets - any number of them, real and integer, in any order, replaced or shared between several dycores, which come and go - each property, forcing and boundary condition is computed by exactly the function last given for it, '
     'which sees all coordinates of all points. A Fortran program that makes the same calls as a C program (set-up, constants, mesh constructor, solver functions, time stepping, driver, diagnostics, state updates, regression output) gets the same vectors, matrices, states, files and errors, on any number of processes.',
     ['histories', 'programs', 'configurations'], 'all sequences of registrations and assignments, all programs of the covered calls, modes, discretizations, meshes, process counts',
     'three Fortran demos set one or two functions of one dycore; functions that do not look at their coordinates cannot tell whether they get them',
     [F90, 'src/f90-mod/tdycoref.c', 'src/f90-mod/tdympfaof.c', 'src/tdycore.c'],
     [('function registry', F90 + ':FindOrAppendSpatialFunction, RegisterSpatialFunction, TDySelectForcingFunction'), ('calls back into Fortran', F90 + ':TDyCallF90SpatialFunction; src/f90-mod/tdycoref.c:WrappedF90SpatialFunction'),
      ('stubs', 'src/f90-mod/tdycoref.c:tdycreate_, tdyupdatestate_'), ('mesh constructor', 'src/tdycore.c:TDySetDMConstructorF90')],
     'calls the Fortran module exposes; the module is compiled with gfortran', 'stateful model-based testing of the function registry; differential testing of Fortran programs against C programs; 1 to 2 processes; AddressSanitizer',
     observe=[F90 + ':TDyCallF90SpatialFunction'])
PF = 'src/fv/share/tdymeshcustom.c'
prop('C21', 'A PFLOTRAN mesh file yields the two-point scheme on exactly its cells',
     'For every mesh of hexahedra, wedges, pyramids and tetrahedra, alone or conformingly mixed, in a PFLOTRAN HDF5 file (any numbering of vertices and cells, any right-handed vertex order within a cell, any number of processes), each cell of the file is owned by one process under its number in the file and has its volume there, '
     'material functions see its centre (mean of the vertices), and the step residual is the two-point-flux balance of exactly these cells and the faces they share, with a sealed outer boundary; evaluating it again changes nothing, and the Jacobian is its derivative.',
     ['inputs', 'configurations'], 'all conforming meshes of the four cell types, numberings, materials, curves, states, process counts',
     'no test reads a mesh file of this kind',
     ['src/fv/share/tdyugrid.c', PF, 'src/fv/share/tdyugdm.c', 'src/fv/share/tdydm.c', 'src/fv/fvtpf/tdyfvtpf.c'],
     [('reading and partitioning', 'src/fv/share/tdyugrid.c:TDyUGridCreateFromPFLOTRANMesh'), ('faces and cells', PF + ':TDyMeshCreateFromDiscretization, RemoveDuplicateFaces, ComputeGeoAttrOfInternalFaces'), ('numberings and scatters', 'src/fv/share/tdyugdm.c:TDyUGDMCreateFromUGrid'),
      ('two-point scheme', 'src/fv/fvtpf/tdyfvtpf_snes.c:TDyFVTPFSNESFunction')],
     'the reader makes no boundary faces; at most 24 cells around a vertex; every process owns a cell; up to 40 cells', 'property-based testing over generated mesh files against an independent assembly; 1 to 3 processes; AddressSanitizer',
     observe=[PF + ':TDyMeshCreateFromDiscretization', 'src/fv/fvtpf/tdyfvtpf_snes.c:TDyFVTPFSNESFunction'])
prop('C22', 'Dycores are independent of each other and of the order of their set-up',
     'For every set of dycores in one process (any mode, discretization, mesh, material, conditions; set up by calls or by the driver) and every interleaving of their calls, each gives exactly the residuals, Jacobians, systems, diagnostics and runs it gives alone. '
     'It also does so when its mode and discretization were changed before, when materials, conditions, fluid laws and numerical options were set in any order or replaced, and when calls that come too early or too late, or ask for an unsupported combination, were rejected with an error in between. '
     'A dycore may be destroyed at any point of its life without harming the others.',
     ['histories', 'schedules', 'configurations'], 'all interleavings of the calls of several dycores, set-up orders, rejected calls, points of destruction, process counts',
     'every test runs one dycore in a process, set up in one order',
     ['src/tdycore.c', 'src/tdydiscretization.c', 'src/tdydriver.c', 'src/tdyti.c', MP, 'src/fv/fvtpf/tdyfvtpf.c', WYF, BDF],
     [('life cycle', 'src/tdycore.c:TDyCreate, TDySetMode, TDySetDiscretization, TDySetFromOptions, TDySetup, TDyDestroy'), ('setters', 'src/tdycore.c:TDySetConstantTensorPermeability; src/tdyconditions.c:ConditionsSetBoundaryPressure; ' + MP + ':TDyMPFAOSetGmatrixMethod')],
     'setters of materials and conditions follow TDySetFromOptions; up to three dycores', 'stateful testing of interleaved call histories, differential against the same dycore alone; 1 to 2 processes; AddressSanitizer',
     observe=['src/tdycore.c:TDyCreate', 'src/tdycore.c:TDyDestroy'])

prop('C23', 'Sessions, shutdown functions and timing profiles',
     'For every history of sessions (TDyInit or TDyInitNoArguments ... TDyFinalize) in a process: each starts afresh, with nothing left of timers, registered functions or dycores of the one before, and dycores compute the same values in each, with timers on or off. '
     'Functions registered with TDyOnFinalize run exactly once, at TDyFinalize, in reverse order. TDyGetFunction returns exactly the function last registered in the session under that name, else an error. '
     'With timers on (-tdy_timers or TDyEnableTimers), and only then, TDyWriteTimingProfile writes to the named file, and TDyFinalize to tdycore_profile.csv, a profile that counts every TDySetup of every process in its stage and gives the mode, discretization, process count and total cells of one of the dycores set up, none if there was none.',
     ['histories', 'configurations'], 'all histories of sessions and of calls within them, numbers of shutdown functions, dycores of every kind, process counts',
     'every test is one session with timers off or with one dycore, whose profile nobody reads',
     ['src/tdycore.c', 'src/tdytimers.c', 'include/tdytimers.h'],
     [('sessions', 'src/tdycore.c:TDyInit, TDyInitNoArguments, TDyFinalize, TDyOnFinalize, TDyRegisterFunction, TDyGetFunction'), ('profiles', 'src/tdytimers.c:TDySetTimingMetadata, TDyWriteTimingProfile')],
     'several sessions need a program that starts MPI itself; up to four sessions', 'stateful model-based testing of session histories (reference model of registries and profiles; values against other sessions); 1 to 2 processes; AddressSanitizer',
     observe=['src/tdycore.c:TDyFinalize', 'src/tdytimers.c:TDyWriteTimingProfile'])

prop('C24', 'Connected regions: nothing flows between cells of different regions',
     'When a simulation divides its cells into regions (-tdy_connected_region, one region number per cell in natural order) and uses the two-point G matrix of MPFA-O, faces between cells of different regions are closed to water, heat and salt, '
     'with and without gravity: the residuals, the Jacobians and the steady system are those of the mesh without these faces, what happens in a region does not depend on the state of the others, and each region with closed boundaries keeps its water. '
     'All other faces carry the same flux as without regions; with the default G matrix, which does not support regions, results are those without regions. Holds for every division, mesh, numbering and number of processes.',
     ['inputs', 'configurations'], 'all divisions into regions, meshes, numberings, materials, states, modes, process counts',
     'no test that runs uses regions: the one written for them is in no suite',
     [MP, 'src/fv/mpfao/tdyregion.c', 'src/fv/share/tdymeshplex.c'],
     [('regions of the cells', 'src/fv/share/tdymeshplex.c:SaveNaturalIDs'), ('closed faces', MP + ':UpdateTransmissibilityMatrix, ComputeGravityDiscretization')],
     'Richards (steps, time-stepper forms, steady system), thermal without gravity, salinity', 'property-based testing against an independent reference discretization without the closed faces; metamorphic relation between states; per-region conservation; 1 to 3 processes',
     observe=[SN + ':TDyMPFAOSNESFunction'])

prop('C25', 'Destroying a dycore gives back all memory it took',
     'However a dycore was configured and used - mode, discretization, generated or file mesh (including PFLOTRAN meshes), materials and conditions (each also replaced any number of times), connected regions, steady systems, residuals, Jacobians, solver and time-stepper runs, output, checkpoints, restarts, diagnostics, regression files - '
     'and wherever in its life it is destroyed, TDyDestroy returns all memory the library allocated for it and releases its references to vectors, matrices and meshes: repeating a session in one process any number of times needs no more memory than running it once. Holds on every number of processes.',
     ['histories', 'configurations'], 'all sessions of a dycore, cut at any step, repeated without limit; process counts',
     'no test measures memory, and every test ends its process after one dycore',
     ['src/tdycore.c', 'src/fv/share/tdymesh.c', MP, 'src/fv/fvtpf/tdyfvtpf.c', 'src/fe/tdywy.c', 'src/fe/tdybdm.c', 'src/fv/share/tdyugrid.c', 'src/fv/share/tdyugdm.c', 'src/tdydiscretization.c'],
     [('destructors', 'src/tdycore.c:TDyDestroy'), ('meshes', 'src/fv/share/tdymesh.c:TDyMeshDestroy'), ('discretization', 'src/tdydiscretization.c:TDyDiscretizationDestroy')],
     'sessions that end in an error are left out; memory from malloc that bypasses PETSc is not counted', 'stateful property-based testing: generated sessions repeated in one process against the invariant that the allocator usage returns to its value; 1 to 3 processes',
     observe=['src/tdycore.c:TDyDestroy'])

prop('C26', 'Requests that cannot be carried out are refused with an error and leave no trace',
     'A request that the state of a dycore does not allow - a call before the one it depends on, a mode and discretization that do not fit each other or are changed after TDySetFromOptions, a call of another discretization or of a solver form that is not implemented, '
     'a function name that is not registered, an unknown option value, a mesh that is missing, cut short, flat, of mixed cells or of tetrahedra, material properties that are missing, options that contradict each other - makes the call return an error code. '
     'It neither crashes nor writes outside its arrays, and everything the dycore and any other dycore of the process compute afterwards is exactly what they compute when the request had not been made; a dycore whose set-up was refused can be destroyed. '
     'Holds at every point of the life of a dycore, for every mode and discretization, on any number of processes.',
     ['histories', 'configurations'], 'all points in the life of a dycore, requests and combinations of them; process counts',
     'the tests never make a request that should be refused; the C code returns error codes that nothing checks in half of the call chains',
     ['src/tdycore.c', 'src/tdydriver.c', 'src/tdyti.c', 'src/tdydiscretization.c', MP, 'src/fe/tdywy.c', 'src/fe/tdybdm.c', PX],
     [('order and combinations', 'src/tdycore.c:TDySetMode, TDySetDiscretization, TDySetFromOptions, TDySetup'), ('solver forms', 'src/tdycore.c:TDySetIFunction, TDySetIJacobian, TDySetSNESFunction, TDySetSNESJacobian'),
      ('names', 'src/tdycore.c:TDyGetFunction, TDySelect*Function'), ('driver and integrator', 'src/tdydriver.c:TDyDriverInitializeTDy; src/tdyti.c'), ('meshes', PX + ':TDyMeshCreateFromPlex')],
     'requests from the list above; a failed TDySetFromOptions is retried with the wrong option removed; a failed TDySetup or TDyDriverInitializeTDy is followed by TDyDestroy', 
     'stateful property-based testing: refused requests injected at random points of generated lives, differential against the same lives without them; 1 to 2 processes; AddressSanitizer',
     observe=['src/tdycore.c:TDySetFromOptions', 'src/tdycore.c:TDySetup'])
