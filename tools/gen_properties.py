#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['pySailingVLM/' + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))

prop('P01', 'The underwater half is the exact mirror image of the rig',
     "For every rig, heel, leeway, twist, camber and discretisation whose sails lie above the water, each panel generated above the water has exactly one panel below whose four corners are its corners reflected in the water plane, traversed so that both halves circulate consistently. "
     "Panels come in two equal halves, above the water first, each ordered sail by sail, chordwise row by chordwise row and spanwise within a row, and the leading- and trailing-edge marks of mirrored panels agree.",
     ['inputs', 'configurations'], 'all rig dimensions, heel/leeway angles, girth-wise varying chords/camber/camber position/twist, all panel counts, all sail sets and all twist modes',
     'The tests only compare one or two fixed rigs with constant camber position (a varying one was mirrored wrongly on the pinned tree and no test noticed).',
     ['yacht_geometry/sail_geometry.py', 'rotations/csys_transformations.py', 'rotations/geometry_calc.py', 'solver/mesher.py', 'solver/panels.py', 'thin_airfoil/vlm_airfoil.py'],
     [('mirrored leading edge + flipped girth data', 'SailGeometry.__init__'), ('opposite heel rotation for z <= 0', 'CSYS_transformations.rotate_point_with_mirror'), ('above/under concatenation', 'SailSet.__init__')])

prop('P02', 'The sail surface realises the configured luff, chord, camber and twist',
     "The panel corners of a sail are, after heel and leeway, exactly the points of its NACA four-digit camber surface: luff stations evenly spaced between tack and head, chord fractions evenly spaced between luff and leech, each section rotated about the luff by its own twist, the twist per station being the one the selected twist mode prescribes. "
     "Panels share corners without gaps or overlaps in the documented corner order, the trailing-edge mark is set on exactly the last chordwise row, and the leading-edge mark on exactly the first row when there is more than one.",
     ['inputs', 'configurations'], 'all rig geometries, girth tables (camber position strictly between 0 and 1), panel counts and twist modes',
     'Tests compare stored numbers for a few meshes with at most a handful of stations; they never vary the twist mode, the camber position along the girth or the row count generally.',
     ['yacht_geometry/sail_geometry.py', 'solver/mesher.py', 'solver/panels.py', 'rotations/geometry_calc.py', 'thin_airfoil/vlm_airfoil.py'],
     [('station and chord subdivision', 'mesher.discrete_segment / make_airfoil_mesh / make_point_mesh'), ('camber line', 'VlmAirfoil'), ('rotation about the luff', 'SailGeometry.rotate_points_around_le'), ('panel corners and edge marks', 'panels.make_panels_from_mesh_spanwise')])

prop('P03', 'Sail mounting points realise the configured rig dimensions',
     "For every rake, sheer height, boom height, foretriangle, mast size and luff length, the distance from tack to head of each sail equals its configured luff length; the mainsail luff lies on the raked mast line with its tack the configured heights along it above the waterline, and the jib luff lies on the line of the forestay whose foot is the configured foretriangle base plus mast size ahead of the mast at sheer height. "
     "Each sail is built from its own rig and girth data, with the configured number of panels.",
     ['inputs', 'configurations'], 'all rig dimensions whose mast top lies aft of the forestay foot, rake strictly between 0 and 180 degrees',
     'One rig with rake 92 degrees is used in all tests; a slip in a sine or cosine changes its numbers by a tiny amount hidden in the stored data.',
     ['yacht_geometry/sail_factory.py', 'runner/sail.py'],
     [('mounting points', 'SailFactory.make_jib / make_main_sail'), ('sail assembly', 'Sail.sail_set')])

prop('P04', 'Vortex elements obey Biot-Savart and close into complete circuits',
     "The velocity induced by a straight vortex segment is the Biot-Savart field of that segment (and zero inside its core, which reaches no further than 0.2 mm from a segment of one metre: |r1 x r2| at most 2e-4), that of a semi-infinite filament is the limit of the segment, and both are proportional to the circulation sign passed in. "
     "Every compound element is a closed circuit: the ring runs once around its four corners and each horseshoe comes from downstream infinity through its corners back to downstream infinity, every leg oriented the same way, so no filament ends in the fluid.",
     ['inputs'], 'all evaluation points, segment end points, wake directions and circulation values',
     'Tests evaluate a few hand-picked points; orientation and singular-core slips that cancel or are small there pass.',
     ['solver/velocity.py'],
     [('segment', 'velocity.vortex_line'), ('semi-infinite filament', 'velocity.vortex_infinite_line'), ('compound elements', 'velocity.vortex_ring / vortex_horseshoe / vortex_horseshoe_v2')])

prop('P05', 'Circulations enforce no flow through the sails and results are gated on it',
     "The solved circulations are those for which, at every panel's control point, free stream plus the velocity induced by all vortex elements (rings, with the wake-shedding element on the trailing row aligned with that panel's apparent wind) has no component along the panel normal. "
     "The coefficients, right-hand side, induced velocities and the verification of the boundary condition all use the same elements, points and normals, and no forces, tables or plots are produced unless that verification (no flux, no degenerate area, no NaN) succeeded.",
     ['inputs', 'configurations'], 'all panel sets, winds and discretisations',
     'A consistent-looking but wrong pairing (points, normals, wake index) still solves and still satisfies its own check for the symmetric cases that the tests use.',
     ['solver/coefs.py', 'solver/velocity.py', 'solver/forces.py', 'solver/vlm.py'],
     [('influence matrix', 'coefs.calc_velocity_coefs'), ('right hand side and solve', 'coefs.calculate_RHS / solve_eq'), ('check', 'forces.is_no_flux_BC_satisfied'), ('order of the solution steps', 'Vlm.__post_init__')])

prop('P06', 'Control points, normals, vortex rings and areas follow the panel geometry',
     "For every panel the pressure and control points lie one quarter and three quarters of the way from leading- to trailing-edge midpoint, the normal is the unit vector perpendicular to both diagonals on a fixed side, and the bound vortex leg joins the quarter points of the two chordwise edges. "
     "Neighbouring vortex rings of a sail share their common leg exactly (the aft leg of a ring is the bound leg of the panel behind it, and the trailing row ends a quarter panel behind its own edge), rings never reach into another sail, and the area of any panel with parallel chordwise edges is its exact area.",
     ['inputs', 'configurations'], 'all panel arrays, panel counts and numbers of sails',
     'Tests compare a flat, evenly spaced plate where many wrong formulas coincide with the right one.',
     ['solver/coefs.py', 'solver/panels.py'],
     [('panel derived quantities', 'coefs.calculate_vlm_variables / calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points'), ('areas', 'panels.get_panels_area')])

prop('P07', 'Panel forces follow the Kutta-Joukowski law; lift and drag split them exactly',
     "The force on a panel is density times local velocity crossed with its bound vortex leg carrying the panel's circulation minus that of the panel ahead of it in the same sail (its own alone on the leading row), the local velocity being the free stream plus what all vortex elements induce at the pressure point. "
     "Lift and drag are the parts due to the free stream and to the induced velocity, so they add up to the force; the pressure is the normal force per area, the pressure coefficient relates it to the local dynamic pressure, and a free wing's coefficients are total force over dynamic pressure times wing area.",
     ['inputs', 'configurations'], 'all circulations, winds, panel counts, numbers of sails and requested force kinds',
     'Tests sample one wing and one rig; the circulation difference across sail boundaries and the split for chordwise rows are not sampled generally.',
     ['solver/forces.py', 'solver/velocity.py', 'solver/coefs.py', 'solver/vlm.py'],
     [('force', 'forces.calc_force_wrapper'), ('pressure', 'forces.calc_pressure / calc_pressure_coeff'), ('wing coefficients', 'coefs.get_vlm_CL_CD_free_wing / get_vlm_Cxyz / get_CL_CD_free_wing')])

prop('P08', 'True wind follows the selected profile; apparent wind adds the boat speed',
     "At every height the true wind is horizontal, points in the configured direction relative to the course, and has the strength of the selected profile (uniform; logarithmic with the configured roughness; power law with the configured exponent and water-level offset), equal to the reference speed at the reference height (measured from the configured water level), with mirrored points seeing the same wind. "
     "The apparent wind is the true wind plus the boat speed along the course, and its reported angle is the direction of that vector in the right quadrant, relative to the course or, less the leeway, to the centreline.",
     ['inputs', 'configurations'], 'all wind directions, speeds, heights and the three profiles',
     'Only the power-law profile at one wind angle is exercised; flat and logarithmic profiles and winds from other quadrants are not.',
     ['inlet/winds.py', 'inlet/inlet_conditions.py', 'runner/sail.py', 'results/inviscid_flow.py'],
     [('profiles', 'FlatWindProfile / LogWindProfile / ExpWindProfile'), ('apparent wind', 'WindBase.get_app_infs_at_h'), ('wind at each pressure point', 'InletConditions'), ('profile selection', 'runner.sail.Wind')])

prop('P09', 'Frames are rigid rotations in the documented sense and are inverted exactly',
     "Heel turns points above the water about the fore-and-aft axis and leeway then turns them about the vertical axis, both by the configured angles in the documented sense, mirrored points heel the opposite way, and the keel is never treated as a mirrored point. "
     "Straightening a heeled point returns the original, rotation about any axis or luff line is a rigid rotation that leaves the axis fixed, and vectors reported in the centreline frame are the course-frame vectors turned by the leeway about the vertical axis.",
     ['inputs'], 'all angles, points and axes (points that heel does not carry across the water plane)',
     'Tests use a handful of angles and points.',
     ['rotations/csys_transformations.py', 'rotations/geometry_calc.py', 'yacht_geometry/hull_geometry.py'],
     [('rotation matrices', 'geometry_calc.rotation_matrix / rotate_points_around_arbitrary_axis / rotate_points_around_origin_axis'), ('frame changes', 'CSYS_transformations'), ('keel', 'HullGeometry')])

prop('P10', 'Totals and moments cover the above-water sails about the requested reference',
     "Every reported total (force, moment, per sail or overall, in either frame) is the sum over exactly the above-water panels it names, moments being arm cross force with arms from the requested reference point (mirrored about the water plane for mirrored panels). "
     "The keel reacts the total sail force at the centre of lateral resistance about the same reference point, grand totals are sails plus keel, and the centre of effort lies on the line of action of the total force regardless of the reference chosen.",
     ['inputs', 'configurations'], 'all force fields, pressure points, reference points, heel/leeway angles and sail sets',
     'The tests use a zero reference offset only.',
     ['results/inviscid_flow.py', 'solver/forces.py', 'solver/additional_functions.py', 'rotations/csys_transformations.py'],
     [('arms and moments', 'forces.calc_moment_arm_in_shifted_csys / calc_moments'), ('above water sums', 'additional_functions.extract_above_water_quantities'), ('totals', 'InviscidFlowResults')])

prop('P11', 'Every reported column holds the quantity its label names',
     "In all reported tables each column or row holds exactly the quantity, component, frame and sail that its label names: panel rows are the above-water panels in panel order, sail names and girths belong to their own row, and totals carry the sail whose name is in the label. "
     "The written workbook contains exactly the tables that are returned (to the written precision), under the documented sheet names, and the section-coefficient plots show lift data as lift and drag data as drag against the height of the same sail.",
     ['inputs', 'configurations'], 'all runs, sail sets and panel counts',
     'The stored reference tables were produced by the code itself, for one sail set and panel count; plots are never checked.',
     ['results/inviscid_flow.py', 'inlet/inlet_conditions.py', 'inlet/winds.py', 'results/save_utils.py', 'solver/additional_functions.py', 'runner/cli.py', 'solver/panels_plotter.py'],
     [('column assembly', 'InviscidFlowResults / InletConditions / ExpWindProfile tables'), ('row assembly and writing', 'save_utils'), ('plots', 'cli.main, panels_plotter')])

prop('P12', 'Section coefficients are area-weighted strip values per sail above the water',
     "For every sail and spanwise strip above the water, the section coefficient is the panel-area-weighted mean over that strip's chordwise panels of force magnitude over local free-stream dynamic pressure times area, and the plotted curve divides it by the same sail's area-weighted mean over its strips. "
     "Each strip's value is paired with the mean height of that strip's pressure points of the same sail; lift curves come from lift and drag curves from drag.",
     ['inputs', 'configurations'], 'all sails, panel counts and force fields',
     'No existing test calls this code.',
     ['solver/coefs.py'],
     [('strip averages', 'coefs.get_C'), ('normalised curves', 'coefs.get_data_for_coeff_plot')])

prop('P13', 'Analyses leave their inputs and shared state untouched and are reproducible',
     "No computation step modifies the arrays, settings or objects handed to it by the caller, and no result depends on anything retained from an earlier computation in the same process. "
     "Calling a step twice with the same inputs, in any order relative to other steps, gives the same result; nothing in the numerical path reads clocks, random numbers, the environment or files.",
     ['histories', 'inputs'], 'all sequences of calls of computation steps in one process (the command-line entry point itself runs once per process)',
     'Tests call each function once on fresh inputs and never re-check the inputs afterwards.',
     ['solver/forces.py', 'solver/coefs.py', 'solver/velocity.py', 'solver/panels.py', 'solver/mesher.py', 'rotations/geometry_calc.py', 'rotations/csys_transformations.py', 'yacht_geometry/sail_geometry.py', 'results/inviscid_flow.py'],
     [('copies before in-place updates', 'calc_moment_arm_in_shifted_csys, make_airfoil_mesh'), ('fresh result arrays', 'all solver functions')])

prop('P14', 'Invalid input stops the run with a failing status before anything is produced',
     "A missing or unreadable case file, an unknown wind profile, sail set, interpolation or force kind, a required setting left empty, girth tables of different lengths, or airfoil parameters out of range always end the run with an error or a non-zero exit status before any solution, table or file is produced. "
     "No such error is swallowed, turned into a success status or replaced by a silent default, and valid input is never rejected.",
     ['inputs', 'configurations'], 'all values of the enumerated options and all combinations of missing settings',
     'Only the out-of-range airfoil exit is tested.',
     ['runner/sail.py', 'runner/cli.py', 'solver/forces.py', 'solver/interpolator.py', 'thin_airfoil/vlm_airfoil.py', 'solver/panels_plotter.py'],
     [('validation on construction', 'Wind / Sail post-init'), ('airfoil limits', 'VlmAirfoil'), ('option checks', 'calc_force_wrapper, plot_section_coeff, load_variable_module')])

prop('P15', 'Output is written only inside the configured results directory',
     "Every file or directory a run creates or overwrites has a path inside the configured results directory, which is created before the first write into it, and the user's case directory is only read. "
     "The case file archived next to the results is the user's own one, under its own name.",
     ['inputs', 'configurations'], 'all configured directories and plain file names, outside interactive notebook sessions; byte-code caches of the Python interpreter aside',
     'Tests never look at which paths are written.',
     ['results/save_utils.py', 'runner/cli.py', 'solver/panels_plotter.py'],
     [('workbook', 'save_utils.save_to_excel'), ('case archive', 'cli.main'), ('plots', 'plot_cp, plot_section_coeff')])

prop('P16', 'Each setting in the user case file drives exactly the quantity it documents',
     "Every setting of the case file is read from the directory given on the command line and reaches the model input it documents unchanged, with documented defaults for omitted ones; no setting is dropped, swapped with another or replaced by a constant. "
     "The rig, sails, wind, reference point, keel and discretisation used in the solution, the tables and the plots are all the configured ones of the same run.",
     ['inputs', 'configurations'], 'all case files',
     'The command-line entry point is not tested at all.',
     ['runner/cli.py', 'runner/container.py', 'runner/sail.py', 'solver/vlm.py', 'yacht_geometry/hull_geometry.py'],
     [('case loading and wiring', 'cli.main / load_variable_module'), ('containers', 'container'), ('assembly', 'runner.sail, Vlm')])

prop('P17', 'Results scale correctly with wind speed and air density',
     "If all velocities are multiplied by a factor, circulations scale with it, forces, moments and pressures with its square, while pressure, lift and drag coefficients, wind angles and the geometry do not change; forces and pressures are proportional to air density and circulations and coefficients do not depend on it. "
     "No reported quantity adds terms that scale differently.",
     ['inputs'], 'all geometries, winds and densities for which a solution is returned (uniform rescaling of true wind and boat speed)',
     'Tests use one wind speed and density.',
     ['solver/coefs.py', 'solver/forces.py', 'solver/velocity.py', 'results/inviscid_flow.py', 'inlet/winds.py'],
     [('normalised influence coefficients', 'calc_velocity_coefs'), ('dynamic pressure normalisation', 'calc_pressure_coeff, get_C')])

prop('P18', 'Girth tables are interpolated at the stations they describe',
     "Every girth-wise table is interpolated against its own girth positions at evenly spaced stations from foot to head, one more than the number of panels, with the configured method, the linear one being piecewise linear and the spline one passing through the given points. "
     "The same stations are used for chord, twist, camber and camber position, so all describe the same section.",
     ['inputs', 'configurations'], 'all girth tables, station counts and both methods',
     'Tests only use the spline method on one table.',
     ['solver/interpolator.py', 'runner/sail.py'],
     [('interpolation', 'Interpolator.interpolate_girths')])

prop('P19', 'The free-wing model solves the same equations as the sail model',
     "A free rectangular wing is meshed with the configured chord, span and incidence, solved with the same elements, boundary condition and force law as the sails, and its coefficients are its total force over dynamic pressure and wing area; its theoretical comparison values follow the lifting-line formula. "
     "For any panel array of evenly spaced straight rows the wing's panel quantities agree with those used for sails.",
     ['inputs', 'configurations'], 'all wings, incidences, panel counts and free streams',
     'Only two wings are compared with stored numbers, with loose tolerance.',
     ['runner/aircraft.py', 'solver/panels.py', 'solver/coefs.py', 'solver/mesher.py'],
     [('wing model', 'runner.aircraft.Aircraft'), ('wing mesh', 'panels.make_panels_from_le_te_points')])

prop('P20', 'Discretised results converge and the linear system is well conditioned',
     "For any reasonable sail geometry the linear system has a unique, well-conditioned solution and integrated forces converge as the number of panels grows. Residuals stay below the verification tolerance for valid input.",
     ['inputs'], 'all geometries and panel counts',
     'Tests use coarse grids with loose tolerances.',
     ['solver/coefs.py', 'solver/vlm.py'], [('linear solve', 'coefs.solve_eq')])

prop('P21', 'Compiled and interpreted execution give the same numbers',
     "Running the solver kernels compiled or interpreted yields the same values to rounding for every input.",
     ['inputs', 'configurations'], 'all kernel inputs',
     'The tests disable compilation altogether.',
     ['solver/velocity.py', 'solver/coefs.py'], [('compiled kernels', 'numba decorators')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
