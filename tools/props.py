"""The property table: single source of properties.jsonl and MANIFEST.json."""
NOT_CLAIMED = {}
PW = 'geotecha/piecewise/piecewise_linear_1d.py'
SC = 'geotecha/speccon/'
CO = 'geotecha/consolidation/'
CM = 'geotecha/constitutive_models/'
MA = 'geotecha/mathematics/'
IO = 'geotecha/inputoutput/inputoutput.py'
FEW = ('The unit tests compare a handful of hand-picked inputs with stored numbers; the claim quantifies over '
       'every valid input, and many combinations (%s) are never reached.')
NOTE = ('Search over generated inputs with a fixed seed; no absence proof. Trusts numpy/scipy, the oracle in '
        '/verif/%s and the tolerances stated there.')

PROPS = []
def P(id, title, statement, quant, why, files, mech, tech, lib, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=FEW % why, files=files,
                      mech=mech, tech=tech, note=NOTE % lib, **k))

# ---------------------------------------------------------------- piecewise
P('P01', 'Piecewise-linear data is interpolated exactly, at jumps and outside the data too',
  'Evaluating piecewise-linear data (given as x,y points, as x1,x2,y1,y2 segments, or as a PolyLine) at any x returns the value of the '
  'linear segment containing x, the end value outside the data, and at a jump the value where the segment on the left ends (default) or where the segment on the right starts '
  '(choose_max). Monotonicity predicates, ramp/constant/step '
  'segment classification and the forcing helpers agree with their definitions and leave the caller\'s arrays unchanged.',
  'every finite non-decreasing (for the interpolators) or arbitrary (for predicates) sequence, with jumps, repeated points and plateaus; every evaluation point',
  'jumps, evaluation exactly on nodes, descending data, points outside the data', [PW],
  [('interp_x_y, interp_x1x2_y1y2, interp_xa_ya_..., segments_containing, ramps_constants_steps', PW)],
  'exact-rational reference model of piecewise-linear functions', 'checks/p01.py')
P('P02', 'Integrals and averages of piecewise-linear data equal the exact integral',
  'The integral of piecewise-linear data between any two points xi < xj within the data, and the average between them, equal the exact area under the data '
  '(between the one-sided values at jumps), are additive over adjacent intervals, and are the same whether the data is given as points, segments, a PolyLine or spread over many '
  'intervals evaluated at once. Integrals of the product of two piecewise-linear functions, and of one weighted by a superposition of load-time functions (with or without a cosine factor), equal the exact integral of that product.',
  'every piecewise-linear data set with jumps, every interval of positive length inside the data, every set of superposed loads',
  'limits on or between nodes, several superposed loads, cosine factors', [PW],
  [('integrate_*, avg_*, xa_ya_multiply_*, pinterp_*, pavg_*, pintegrate_*', PW)],
  'exact-rational integration oracle plus additivity relations', 'checks/p02.py')
P('P03', 'PolyLine arithmetic is pointwise, lossless and does not alter its operands',
  'Adding or subtracting PolyLines or numbers, multiplying or dividing by numbers, negating by arithmetic and comparing give PolyLines whose value at every x is the '
  'same operation on the operands\' values (both one-sided values at jumps); operands are unchanged. The x-y and x1-x2-y1-y2 forms of one PolyLine are interchangeable, '
  'eval(repr(p)) equals p, and making several PolyLines share x values or removing superfluous points never changes the function represented.',
  'every pair of PolyLines without switchbacks (ascending, descending, with jumps), every scalar, every operation sequence',
  'jumps in both operands at the same x, descending data, chained operations', [PW],
  [('PolyLine, polyline_make_x_common, remove_superfluous_from_x_y', PW)],
  'model-based check against an exact function model; operand snapshots', 'checks/p03.py', over=['inputs', 'histories'])
P('P04', 'Subdividing loads, depths and element lengths keeps end points, order and shape',
  'Subdividing piecewise-linear data into smaller segments (linear or logarithmic spacing, by minimum or target spacing or number), splitting '
  'a length into proportional elements, and building layer coordinates give points that start and end exactly at the original ends, contain every original '
  'point, are in order, respect the requested counts and ratios, and lie on the original piecewise-linear function.',
  'every valid data set, spacing rule and option combination', 'min-segment limits, jumps, single-point lists, log spacing', [PW],
  [('subdivide_x_into_segments, subdivide_x_y_into_segments, subdivide_into_elements, layer_coords', PW)],
  'invariants plus reference interpolation', 'checks/p04.py')

# ---------------------------------------------------------------- speccon
P('S01', 'Spectral depth integrals equal the true integrals in every implementation',
  'The closed-form integrals over depth of products of sine/cosine basis functions with piecewise-linear soil properties equal the integrals computed numerically, '
  'including at jumps in the properties and at one- and two-way drainage. The scalar, vectorised and compiled Fortran versions of each integral give the same result.',
  'every piecewise-linear property profile on normalised depth, every drainage condition, number of terms and evaluation depth', 'linear-within-layer properties, jumps, many terms, different implementations',
  [SC + 'integrals.py', SC + 'ext_integrals.f95'], [('dim1sin*, *_linear, *_implementations', SC + 'integrals.py'), ('compiled versions', SC + 'ext_integrals.f95')],
  'Gauss-quadrature oracle and differential test of three implementations (Fortran is rebuilt from source)', 'checks/s01.py')
P('S02', 'Spectral time integrals of loads equal the true convolution integrals',
  'For any piecewise-linear load history, with instantaneous steps, optionally multiplied by cos or sin of omega*t+phase, the integral of the load (or of its derivative, steps '
  'included) weighted by exp(-lambda*(t-tau)) from minus infinity of the data to t equals the numerically integrated value for every decay rate and output time, whichever of the scalar, vectorised or Fortran versions is used.',
  'every load history, decay rate, output time (before, on, between and after load points)', 'times on load points, steps, constant segments, very different decay rates',
  [SC + 'integrals.py', SC + 'ext_integrals.f95'], [('Eload_*, EDload_*', SC + 'integrals.py')],
  'quadrature/closed-form oracle and differential test of three implementations', 'checks/s02.py')
P('S03', 'Speccon1dVR solves the consolidation equation it documents',
  'For any input of piecewise-linear soil properties, surcharge, vacuum, top and bottom pore-pressure, fixed pore-pressure, pumping and drain loads, the vertical-and-radial spectral program '
  'returns the pore pressure, layer-average pore pressure and settlement of the documented governing equation (to the accuracy of its truncated series), at every requested depth and time, for pervious or impervious bottom.',
  'every valid combination of properties, loads (with omega/phase), drainage condition, times, depths', 'several load types together, cyclic loads, pumping, fixed pore pressure, linear-with-depth properties',
  [SC + 'speccon1d.py', SC + 'speccon1d_vr.py'], [('Speccon1dVR', SC + 'speccon1d_vr.py'), ('dim1sin_* assembly', SC + 'speccon1d.py')],
  'independent Galerkin reference model integrated exactly in time', 'checks/s03.py')
P('S04', 'Speccon1dVRW solves radial consolidation with well resistance as documented',
  'With well resistance in the drain, the soil pore pressure, drain (well) pore pressure, average pore pressures and settlement returned are those of the documented coupled governing equations for any valid '
  'combination of properties and loads, and approach the no-well-resistance program when the drain permeability is large.',
  'every valid combination of properties, loads, drainage condition, times, depths', 'load types in soil and well, cyclic loads', [SC + 'speccon1d_vrw.py', SC + 'speccon1d.py'],
  [('Speccon1dVRW', SC + 'speccon1d_vrw.py')], 'independent coupled Galerkin reference model; limit relation', 'checks/s04.py')
P('S05', 'Speccon1dVRC solves consolidation with columns as documented',
  'With stiffened or permeable columns, the pore pressure, average pore pressure and settlement returned are those of the documented governing equation for any valid combination of properties and loads, '
  'and reduce to the vertical-and-radial program when the column has no influence.',
  'every valid combination of properties, loads, drainage condition, times, depths', 'column and soil property combinations', [SC + 'speccon1d_vrc.py', SC + 'speccon1d.py'],
  [('Speccon1dVRC', SC + 'speccon1d_vrc.py')], 'independent Galerkin reference model; limit relation', 'checks/s05.py')
P('S06', 'Speccon1dUnsat solves coupled unsaturated consolidation as documented',
  'For unsaturated soil the pore-water and pore-air pressures, their averages and the settlement returned are those of the documented coupled water and air equations for any valid combination of properties, loads and initial conditions.',
  'every valid combination of properties, loads, drainage condition, times, depths', 'coupled air/water, initial conditions, cyclic loads', [SC + 'speccon1d_unsat.py', SC + 'speccon1d.py'],
  [('Speccon1dUnsat', SC + 'speccon1d_unsat.py')], 'independent coupled Galerkin reference model', 'checks/s06.py')
P('S07', 'Speccon results do not depend on how the same problem is written down',
  'For every spectral consolidation program the results are unchanged when loads are listed in another order, a load is split into a sum of loads, a layer is split at an interior depth, a load factor is moved between magnitude and magnitude-vs-depth, '
  'the reference time factors or reference values are rescaled with their profiles, the implementation is changed, or the input is given as text rather than attributes; doubling all loads doubles all results, and results at a subset of times equal those from the full run.',
  'every valid input and every equivalent rewriting of it', 'equivalent rewritings of one problem', [SC + 'speccon1d.py', SC + 'speccon1d_vr.py', SC + 'speccon1d_vrw.py', SC + 'speccon1d_vrc.py', SC + 'speccon1d_unsat.py'],
  [('speccon1d.py load terms', SC + 'speccon1d.py')], 'metamorphic relations between runs', 'checks/s07.py')
P('S08', 'Speccon programs save and plot exactly the results they computed',
  'For every spectral consolidation program the data files saved by a run contain the computed arrays at the requested depths and times (in the units and reduced levels requested) under the right headings and labels, together with the input that re-creates the run; repeated runs '
  'get their own numbered output (or overwrite when asked) and runs only save what is requested; the figures show exactly the computed pore pressures, averages, settlements, loads and material profiles on the right axes with the right labels, reference values and plot properties, and plotting again gives the same figures.',
  'every valid input, output selection, time index selection, plot property and save option', 'output options, repeated runs, several loads and profiles', [SC + 'speccon1d_vr.py', SC + 'speccon1d_vrw.py', SC + 'speccon1d_vrc.py', SC + 'speccon1d_unsat.py', 'geotecha/plotting/one_d.py', IO],
  [('make_output, produce_plots, _plot_*', SC), ('plot_vs_depth, plot_vs_time, plot_generic_loads', 'geotecha/plotting/one_d.py'), ('InputFileLoaderCheckerSaver', IO)],
  'read-back of files and figures against the computed arrays and the generated input', 'checks/s08.py', over=['inputs', 'histories'])

P('S09', 'The code written by the integral generators computes the integrals it documents',
  'The Python and Fortran text returned by each generator of the spectral integrals (depth integrals with piecewise-linear properties, integrals between depths, and load-time integrals with or without a sine or cosine factor) is valid code defining the named function, '
  'and that function gives the documented integral, by the scalar, vectorised and Fortran implementation alike, for every input.',
  'every generator and every valid input of the function it writes', 'properties varying within layers, stepped and cyclic loads', [SC + 'integrals_generate_code.py'],
  [('*_implementations, dim1sin_a_linear_between, dim1_ab_linear_between', SC + 'integrals_generate_code.py')],
  'the generated code is executed/compiled and compared with numerical quadrature', 'checks/s09.py')

P('S10', 'Spectral programs reproduce the closed-form solutions of the same problems',
  'A problem that both a spectral program and one of the closed-form modules can describe gets the same pore pressures, averages and settlements from both, whatever the units, reference values, output times and load: '
  'Speccon1dVR with Terzaghi, Schiffman and Stein (layers) and Zhu and Yin (graded properties), Speccon1dVRW (and VR with a free-draining well) with Tang and Onitsuka, Speccon1dVRC with Lu et al, Speccon1dUnsat with Shan et al.',
  'every problem within the scope of both programs of a pair', 'smear zones, well resistance, ramp and sinusoidal loads, linear initial pressure, layers, both drainage conditions, small numbers of modes', [SC + 'speccon1d_vr.py', SC + 'speccon1d_vrw.py', SC + 'speccon1d_vrc.py', SC + 'speccon1d_unsat.py'] + [CO + f for f in ('terzahi.py', 'tangandonitsuka2000.py', 'luetal2010.py', 'shanetal2012.py')],
  [('Speccon1dVR, Speccon1dVRW, Speccon1dVRC, Speccon1dUnsat', SC), ('terzaghi_1d, tangandonitsuka2000, luetal2010, shanetal2012, zhuandyin2012, SchiffmanAndStein1970', CO)],
  'differential: two independent programs of the repository on the same generated physical problem', 'checks/s10.py')

# ---------------------------------------------------------------- beam
P('B01', 'SpecBeam returns the dynamic deflection of a beam under point loads',
  'For any beam, piecewise-linear foundation stiffness and damping, and set of moving and stationary point loads, the spectral beam deflection (normalised or not) equals the '
  'solution of the damped Euler-Bernoulli beam on Winkler foundation; deflections superpose over loads, scale with load and tend to the static deflection for a slowly applied stationary load.',
  'every beam/foundation/load combination in stable numerical range', 'variable foundation, many loads, late arrival and departure of loads', ['geotecha/beam_on_foundation/specbeam.py'],
  [('SpecBeam', 'geotecha/beam_on_foundation/specbeam.py')], 'independent modal reference model with exact time stepping; superposition', 'checks/b01.py')
P('B02', 'Moving load kinematics and closed-form beam formulas are self-consistent',
  'A multi-axle vehicle reports at each time exactly the axles that are on the beam, at positions consistent with its velocity and start, converts to per-axle load histories describing the same motion, and reports passing times that '
  'place the axle at the point asked for; pictures and animations of it draw each axle there. The closed-form static and moving-load deflection shapes, amplification factors and transition curves satisfy the equations, end values and inverses they document.',
  'every vehicle, velocity sign, offset, time and point; every damping/velocity ratio in range', 'negative velocity, offsets, loads entering and leaving', ['geotecha/beam_on_foundation/specbeam.py'],
  [('MovingPointLoads, closed-form functions', 'geotecha/beam_on_foundation/specbeam.py')], 'kinematic reference model; ODE residual and round-trip relations', 'checks/b02.py', over=['inputs', 'histories'])
P('B03', 'DingEtAl2012 solves the nonlinear beam equation it documents',
  'For any beam, linear and cubic foundation stiffness, damping and moving load the Galerkin solution of the finite beam (simply supported, clamped or free ends) equals an independent integration of the same modal equations, and dimensional and '
  'normalised input and output describe the same deflection.', 'every parameter set in range, each boundary condition', 'cubic stiffness, boundary conditions, normalisation', ['geotecha/beam_on_foundation/dingetal2012.py'],
  [('DingEtAl2012', 'geotecha/beam_on_foundation/dingetal2012.py')], 'independent modal ODE model; normalisation relation', 'checks/b03.py')
P('B04', 'Figures and studies of moving loads on beams show what beam theory gives',
  'The functions that study a beam under moving loads (amplification factor against velocity or stiffness ratio, deflection envelopes for velocities and damping ratios, convergence with the number of terms, and transition zones between two foundations) draw the deflections and amplification factors that beam theory gives for the parameters asked for, '
  'on the axes asked for, for any number and order of velocities, damping ratios, transition lengths, loads and directions, and leave the lists they are given unchanged.', 'every list of velocities, damping ratios, transition lengths and directions, every window and number of points', 'these functions have no test at all, or only run once with default arguments',
  ['geotecha/beam_on_foundation/specbeam.py', 'geotecha/beam_on_foundation/dingetal2012.py'],
  [('transition_DAF1, FIG_DAF_envelope_vary_beta, FIGURE_DAF_constant_prop, FIGURE_defl_envelope_vary_velocity, FIGURE_convergence_step_change, FIGURE_verify_against_DingEtAl2012_fig8, transition_zones1, transition_zones2', 'geotecha/beam_on_foundation/specbeam.py')],
  'modal equations integrated exactly with matrix exponentials; infinite beam by residues', 'checks/b04.py')

# ---------------------------------------------------------------- consolidation
P('C01', 'Terzaghi solution satisfies the 1D consolidation equation and its boundaries',
  'Pore pressure, average pore pressure, degree of consolidation and flow rate returned for one-dimensional consolidation with uniform initial pore pressure satisfy the diffusion equation with cv=kv/(mv*gamw), the drained/undrained boundaries, start from the initial value, and are consistent with each other at every depth and time.',
  'every depth, time and material constants', 'arbitrary depth/time arrays and constants', [CO + 'terzahi.py'], [('terzaghi_1d, terzaghi_1d_flowrate', CO + 'terzahi.py')],
  'independent series/error-function oracle and differencing relations', 'checks/c01.py')
P('C02', 'Layered-soil solution (Schiffman & Stein 1970) solves its consolidation problem',
  'For any number of layers, permeable/impermeable/impeded boundaries and piecewise-linear surcharge, the pore pressure, average pore pressure and settlement are those of one-dimensional layered consolidation; splitting a layer into identical sub-layers changes nothing.',
  'every layer sequence, boundary condition, load history, depth and time', 'many layers, impeded drainage, ramp loads', [CO + 'schiffmanandstein1970.py'], [('SchiffmanAndStein1970', CO + 'schiffmanandstein1970.py')],
  'finite-volume reference with exact time integration; layer splitting', 'checks/c02.py')
P('C03', 'Multi-layer vertical and radial solution (Nogami & Li 2003) solves its problem',
  'For layered soil with drains and thin permeable layers, the pore pressure at any radius and depth, its averages and settlement are those of coupled vertical and radial free-strain consolidation under the surcharge history.',
  'every layer sequence, drain geometry, load history, depth, radius and time', 'layering, load history, radius', [CO + 'nogamiandli2003.py'], [('NogamiAndLi2003', CO + 'nogamiandli2003.py')],
  'independent finite-volume reference; layer splitting', 'checks/c03.py')
P('C04', 'Vertical drain solution (Tang & Onitsuka 2000) solves the drain equations',
  'Soil, smear-zone and drain pore pressures, averages and settlement for ideal-drain consolidation with well resistance under a piecewise-linear surcharge follow the documented governing equations for every depth and time.',
  'every drain geometry, property set, load history, depth and time', 'load histories, well resistance, drainage condition', [CO + 'tangandonitsuka2000.py'], [('tangandonitsuka2000', CO + 'tangandonitsuka2000.py')],
  'independent modal reference; superposition', 'checks/c04.py')
P('C05', 'Solution with depth-dependent properties (Zhu & Yin 2012) solves its equation',
  'For permeability and compressibility varying as powers of depth the returned pore pressure, average, settlement and degree of consolidation solve the documented equation with its boundary and initial conditions for either drainage condition.',
  'every exponent pair, depth ratio, drainage condition, depth and time', 'exponents and drainage conditions', [CO + 'zhuandyin2012.py'], [('zhuandyin2012', CO + 'zhuandyin2012.py')],
  'finite-volume reference with exact time integration', 'checks/c05.py')
P('C06', 'Large-strain solution (Xie & Leo 2004) is consistent and solves its equation',
  'All returned large-strain quantities (initial and final void ratio, excess, total and effective stresses, settlement, degrees of consolidation, velocities, moved coordinates) satisfy the documented relations between them, the Lagrangian consolidation equation, boundaries and limits, for one- and two-way drainage; time back-calculated from a degree of settlement reproduces that degree.',
  'every parameter set, material coordinate and time', 'two drainage conditions, self weight, time limits', [CO + 'xieandleo2004.py'], [('XieAndLeo2004', CO + 'xieandleo2004.py')],
  'quadrature/differencing relations between outputs, and an independent series', 'checks/c06.py')
P('C07', 'Drain and column solutions (Deng 2013/2014, Lu 2010) satisfy their equations',
  'Pore pressures, averages and degrees of consolidation for drains with depth- or time-dependent well resistance and for composite ground with column drainage satisfy the documented equations, initial and boundary data, and reduce to the simpler solutions in the documented limits.',
  'every geometry, property set, depth and time', 'time and depth dependent resistance, smear, limits', [CO + 'dengetal2013and2014.py', CO + 'luetal2010.py'], [('dengetal2013, dengetal2014, luetal2010', CO)],
  'independent ODE/PDE reference and limit relations', 'checks/c07.py')
P('C08', 'Unsaturated solution (Shan et al 2012) satisfies the coupled air-water equations',
  'Pore-water and pore-air pressures for one- and two-way drainage, given initial conditions and loading function satisfy the documented coupled equations, boundaries and initial values.',
  'every coefficient set, drainage condition, initial condition, depth and time', 'coefficients, drainage, loads', [CO + 'shanetal2012.py'], [('shanetal2012', CO + 'shanetal2012.py')],
  'independent coupled modal reference', 'checks/c08.py')
P('C09', 'Fractional-derivative consolidation (Cosenza & Korosak 2014) solves its equation',
  'Pore pressure, average pore pressure and settlement for secondary consolidation as anomalous diffusion are those of the documented fractional equation, and reduce to Terzaghi consolidation when the fractional term vanishes.',
  'every theta, v, depth and time', 'fractional orders and weights', [CO + 'cosenzaandkorosak2014.py'], [('cosenzaandkorosak2014', CO + 'cosenzaandkorosak2014.py')],
  'independent Laplace-domain closed form inverted in high precision', 'checks/c09.py')

P('C10', 'Consolidation solutions are the same in every consistent set of units',
  'Expressing the same problem in other units of length, time and stress (with every parameter converted by its dimension, and every load history, output depth and output time with it) gives the same pore pressures, degrees of consolidation and settlements, converted to those units: no closed-form consolidation program depends on how large its numbers happen to be.',
  'every problem and every consistent system of units, from seconds to billions of years and from millimetres to kilometres', 'tiny and huge numbers, absolute thresholds', [CO + '*.py'], [('terzaghi_1d, terzaghi_1d_flowrate, tangandonitsuka2000, zhuandyin2012, dengetal2013/2014, luetal2010, shanetal2012, cosenzaandkorosak2014, XieAndLeo2004, SchiffmanAndStein1970, NogamiAndLi2003', CO + '*.py')],
  'metamorphic relation: dimensional rescaling of generated problems', 'checks/c10.py')

# ---------------------------------------------------------------- smear zones
P('M01', 'Smear-zone mu equals the integral of its permeability profile',
  'For ideal, constant, linear, overlapping-linear, parabolic, piecewise-constant and piecewise-linear smear zones the drain parameter mu equals the equal-strain integral over the radial permeability profile, the permeability functions return that profile, and the special cases that describe the same profile give the same mu. A geometry that breaks a documented rule is an error, never a number.',
  'every drain/influence ratio n, smear ratio s, permeability ratio kappa, including overlap and limits', 'special-case branches, overlap, limits', [CO + 'smear_zones.py'], [('mu_*, k_*, _sx, _kapx', CO + 'smear_zones.py')],
  'numerical integration oracle and equivalence relations', 'checks/m01.py')
P('M02', 'Radial pore-pressure profiles match their average, boundaries and permeability',
  'The radial pore-pressure profile of each smear-zone model (Darcy and non-Darcy) is continuous, equals the drain value at the drain wall, has no gradient at the outer boundary, has the requested average over the influence area, and is the profile implied by the permeability distribution, for any average pressure, drain pressure and well-resistance term.',
  'every geometry, permeability profile, radius, uavg, uw, muw', 'multi-segment profiles, uw and muw not zero', [CO + 'smear_zones.py'], [('u_*, non_darcy_u_piecewise_constant', CO + 'smear_zones.py')],
  'numerical integration oracle', 'checks/m02.py')
P('M03', 'Drain spacing, eta, well resistance and non-Darcy factors are consistent',
  'Influence radius from spacing, drain eta, well-resistance terms and their depth average, spacing back-calculated from eta, and the non-Darcian beta and eta parameters follow their definitions: round-trips recover the spacing, averages equal means, non-Darcy factors equal their radial integrals and approach the Darcy ones as the exponent tends to one.',
  'every pattern, mu function, geometry and flow exponent', 'patterns, mu functions, exponents', [CO + 'smear_zones.py'], [('re_from_drain_spacing, drain_eta, back_calc_drain_spacing_from_eta, mu_well_resistance, non_darcy_*', CO + 'smear_zones.py')],
  'round-trip and quadrature oracles', 'checks/m03.py')

# ---------------------------------------------------------------- constitutive
P('K01', 'Void ratio-stress models invert, differentiate and follow the loading path',
  'For linear, Cc-Cr, piecewise-linear (linear or log axes) and user-function soil models, void ratio from stress and stress from void ratio invert each other on any load/unload path when preconsolidation stress is respected, av is minus the slope of that path, unloading follows the recompression line, and results for arrays equal results element by element.',
  'every model, parameter set, stress and preconsolidation stress (given or implied)', 'preconsolidation paths, segment boundaries, log axes', [CM + 'void_ratio_stress.py'], [('AvSoilModel, CcCrSoilModel, PwiseLinearSoilModel, FunctionSoilModel', CM + 'void_ratio_stress.py')],
  'round-trip, finite-difference and reference-path model', 'checks/k01.py', over=['inputs', 'histories'])
P('K02', 'Permeability-void ratio models invert each other and honour their definition',
  'Permeability from void ratio and void ratio from permeability are mutual inverses, pass through their reference points, interpolate on the stated (linear or log) axes, extrapolate as documented and give the same results for arrays as for scalars.',
  'every model, parameter set and argument', 'log axes, out of range arguments', [CM + 'void_ratio_permeability.py'], [('Ck/Constant/PwiseLinear/Function permeability models', CM + 'void_ratio_permeability.py')],
  'round-trip and reference formula', 'checks/k02.py')
P('K03', 'Flow laws: velocity and gradient are inverse, odd and consistent in slope',
  'For Darcy and Hansbo non-Darcian flow velocity-from-gradient and gradient-from-velocity are inverse, odd and increasing, dv/di is their slope (continuous across the transition gradient; it carries the sign of the gradient), every documented way of specifying the Hansbo parameters gives the same law, inconsistent specifications are rejected, and drain strain rate follows from the same law.',
  'every parameter combination, sign and magnitude of gradient', 'parameter subsets, sign, transition point', [CM + 'velocity_hydraulic_gradient.py'], [('DarcyFlowModel, HansboNonDarcianFlowModel', CM + 'velocity_hydraulic_gradient.py')],
  'round-trip, finite-difference and equivalence relations', 'checks/k03.py')
P('K04', 'Yin and Graham creep model follows its rate equation and reference states',
  'Creep void ratio, stress and compressibility from the elastic visco-plastic model satisfy its documented rate equation, instant and reference time lines; steps can be split without changing the result beyond integration error, initial conditions given in any sufficient combination agree, and constant rate simulations reproduce the stepwise results.',
  'every parameter set, sequence of stress/strain increments, and initial-condition subset', 'histories of increments', [CM + 'void_ratio_stress.py'], [('YinAndGrahamSoilModel', CM + 'void_ratio_stress.py')],
  'independent high-accuracy ODE integration; step splitting', 'checks/k04.py', over=['inputs', 'histories'])
P('K05', 'Soil-water characteristic curves: value, slope and permeability agree',
  'Water content from suction follows the documented curve (with or without the correction factor), falls monotonically from its saturated value, dw/dpsi is its slope, relative permeability is the documented integral over the curve and lies between 0 and 1, and arrays give the same results as scalars.',
  'every parameter set and suction', 'correction options and suction ranges', [CM + 'swcc.py'], [('SWCC_*, kwrel_from_discrete_swcc, karel_air_from_saturation', CM + 'swcc.py')],
  'reference formula, finite differences and quadrature', 'checks/k05.py')
P('K06', 'EPUS unsaturated response is implementation independent and bounded',
  'For any wetting/drying/loading/unloading path the pure-Python and Fortran implementations of the elasto-plastic unsaturated model give the same void ratio, water content and saturation; a path run in pieces equals the combined path; saturation stays in [0, 1], water content equals saturation*void ratio/Gs, and closed elastic loops return to the start.',
  'every curve-fit set and stress path', 'path sequences', [CM + 'epus.py', CM + 'epus_ext.f95'], [('EPUS, StressPath, DataResults', CM + 'epus.py')],
  'differential test Python/Fortran (rebuilt from source), path-history invariants', 'checks/k06.py', over=['inputs', 'histories'])

# ---------------------------------------------------------------- mathematics
P('N01', 'Numerical Laplace inversion returns the time function of known transforms',
  'Inverting the Laplace transform of any combination of decaying exponentials, powers, sines and steps-free smooth functions returns the time function at every positive time within the documented accuracy, for float and multi-precision versions, scalar, array and vector-valued use and with extra arguments and shift.',
  'every combination of known transform pairs, time and option', 'shift, vector-valued transforms, term counts', [MA + 'laplace.py', MA + 'mp_laplace.py'], [('Talbot', MA)],
  'closed-form transform pairs; linearity', 'checks/n01.py')
P('N02', 'Hankel, Fourier and multi-dimensional transforms return known transform pairs',
  'Numerical Hankel transforms of any order, cosine, sine and complex Fourier transforms (forward, inverse, with symmetry hints), their vectorised versions and nested multi-dimensional transforms equal the closed-form transform of the function, are linear, and inverse undoes forward.',
  'every transform pair, order, transform variable and option', 'symmetry options, orders, nested transforms', [MA + 'hankel.py', MA + 'fourier.py', MA + 'multi_transform.py'], [('HankelTransform, vhankel_transform, FourierTransform, vcosine_transform, ntransform', MA)],
  'closed-form transform pairs; linearity; round-trip', 'checks/n02.py')
P('N03', 'Quadrature rules are exact to their degree and series acceleration finds limits',
  'Gauss-Legendre and Gauss-Kronrod rules of every tabulated size integrate polynomials up to their degree exactly over any interval or set of intervals, embed the rule they extend, and work for scalar and vector-valued integrands; Shanks acceleration returns the limit of geometric-type sequences.',
  'every tabulated rule, interval set, polynomial; every geometric-type sequence', 'all rule sizes, several intervals, vector integrands', [MA + 'quadrature.py'], [('gauss_*_abscissae_and_weights, gk_quad, gl_quad, shanks', MA + 'quadrature.py')],
  'exact-rational polynomial integrals', 'checks/n03.py')
P('N04', 'Polygon area, centroid, normal, plane and integrals are those of the polygon',
  'For any simple planar polygon in 2D or 3D, area, centroid, unit normal, plane equation, side lengths, polygon integrals and generated integration code agree with triangulation, are invariant to vertex rotation and rigid motion as expected, and change sign only with orientation.',
  'every simple polygon, orientation, position', 'concave, rotated, 3D polygons', [MA + 'geometry.py'], [('polygon functions', MA + 'geometry.py')],
  'triangulation oracle; rigid-motion relations', 'checks/n04.py')
P('N05', 'Root finding returns the first n roots in order; fixed points are fixed points',
  'Finding n roots returns exactly the first n roots in increasing order beyond the start point when roots are separated by more than the search step; fixed-point iteration returns a fixed point; depth to reduced level conversion is the documented affine map.',
  'every function with resolvable roots, start and step; every contraction; every depth and level', 'root spacing, expansion factor, vector arguments', [MA + 'root_finding.py', MA + 'transformations.py'], [('find_n_roots, fixed_point_no_accel, depth_to_reduced_level', MA)],
  'functions built from known roots', 'checks/n05.py')

# ---------------------------------------------------------------- io
P('H01', 'Objects can be edited, solved again and asked in any order without memory',
  'Editing the inputs of a program object and solving again, plotting in between, asking a solved object for other times, places or quantities in any order, or using several objects in turn, gives exactly what a fresh object with the inputs of that moment gives; '
  'solving or asking one object leaves the answers held by another as they were. Covers the four spectral programs, the layered programs, beams, large-strain and load-group objects, and the transform objects.',
  'every sequence of edits, solves, plots and questions on one or two objects', 'histories of edits that turn features on and off; interleaved use of two objects', [IO, 'geotecha/speccon/speccon1d_vr.py', 'geotecha/consolidation/nogamiandli2003.py', 'geotecha/beam_on_foundation/specbeam.py'],
  [('InputFileLoaderCheckerSaver.check_input_attributes, initialize_objects_attributes', IO), ('Speccon1dVR, Speccon1dVRC, Speccon1dVRW, Speccon1dUnsat', 'geotecha/speccon/'), ('NogamiAndLi2003, SchiffmanAndStein1970, XieAndLeo2004', 'geotecha/consolidation/'), ('SpecBeam, MovingPointLoads, DingEtAl2012', 'geotecha/beam_on_foundation/'), ('Talbot, HankelTransform, FourierTransform', 'geotecha/mathematics/')],
  'stateful model-based generation; the model is a fresh object', 'checks/h01.py', over=['inputs', 'histories'])
P('I01', 'Input text is executed only if every construct in it is white-listed',
  'Input text is accepted and run exactly when all syntax, functions, names and attributes in it are on the white list; anything else (imports, unlisted builtins, dunder attributes, unknown names) raises SyntaxError before any of it runs, and accepted text yields the values that Python gives.',
  'every program text over the allowed grammar with any forbidden construct inserted anywhere', 'nesting of forbidden constructs', [IO], [('SyntaxChecker, make_module_from_text, code_for_explicit_attribute_initialization', IO)],
  'grammar-based program generation with differential evaluation', 'checks/i01.py', over=['inputs', 'programs'])
P('I02', 'Attribute transfer and input validation accept exactly the valid input sets',
  'Copying attributes between objects, defaulting, and the attribute checks (presence, type, values, equal lengths, requires/excludes combinations, zero or all, at least one, forced same length) behave as defined for every combination of present and absent attributes: valid combinations pass unchanged, invalid ones raise, and nothing but the named attributes changes.',
  'every subset of attributes, defaults and rule sets', 'combinations of rules and missing attributes', [IO], [('copy_attributes*, check_attribute_*, force_attribute_same_len_if_none, initialize_objects_attributes', IO)],
  'set-theoretic reference model', 'checks/i02.py')
P('I03', 'Output files contain the computed data and never overwrite other output',
  'Saving grid data, parsed input and settings writes files that read back to the same numbers, headers, row labels and order; automatically numbered file stems never collide with existing ones; a saved parsed input re-creates the same problem; data given by the caller is not altered.',
  'every data set, column labels, extension, existing directory content', 'labels, extension types, existing files, repeated saves', [IO], [('save_grid_data_to_file, make_array_into_dataframe, next_output_stem, InputFileLoaderCheckerSaver', IO)],
  'write/read round-trip in scratch directories; file-system model', 'checks/i03.py', over=['inputs', 'histories'])
P('I04', 'Command-line processing acts on exactly the requested files and settings',
  'Processing input files from the command line runs each requested file once with the requested options, in the right directory, and restores the working directory whatever happens; text and time utilities return what they document; a timed call returns its result or error, or stops on time.',
  'every set of files, options and failures; every duration; every function outcome', 'failing files, nested directories, option combinations', [IO, 'geotecha/inputoutput/timeout.py'], [('GenericInputFileArgParser, working_directory, hms_string, string utilities', IO), ('timeout', 'geotecha/inputoutput/timeout.py')],
  'model of requested runs in scratch directories with failure injection', 'checks/i04.py', over=['inputs', 'fault_sequences'])

# ---------------------------------------------------------------- plotting
P('G01', 'Plots show the data they were given, on the right axes and levels',
  'Depth, time, load and grid plots draw one line per data set with exactly the supplied values (depths mapped to reduced level as documented, loads evaluated from their piecewise-linear definition), labels, legend text and styles assigned to the right line, and do not alter the data passed in.',
  'every data set, option dictionary, reference level and grid arrangement', 'options, multiple data sets, reduced levels', ['geotecha/plotting/one_d.py'], [('plot_vs_depth, plot_vs_time, plot_generic_loads, plot_single_material_vs_depth, plot_data_in_grid', 'geotecha/plotting/one_d.py')],
  'figure read-back against the supplied data', 'checks/g01.py')
P('G02', 'Style, colour, index-map and dictionary helpers do what they define',
  'Shading and tinting keep colours in range and move them the stated fraction towards black or white, style lists cycle markers, dashes and colours as requested, index maps are the stated permutations, and dictionary helpers merge without changing their inputs.',
  'every colour, factor, style subset, grid shape and dictionary', 'subsets, factors, shapes', ['geotecha/plotting/one_d.py'], [('rgb_shade, rgb_tint, MarkersDashesColors, row_major_order_reverse_map, split_sequence_into_dict_and_nondicts', 'geotecha/plotting/one_d.py')],
  'reference model', 'checks/g02.py')
