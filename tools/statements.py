FLD = 'IMTreatment/core/field.py'
SF = 'IMTreatment/core/scalarfield.py'
VF = 'IMTreatment/core/vectorfield.py'

NA = {}
P = {}
P['C01'] = dict(
    title='Importing arrays gives the canonical field',
    statement='A scalar or vector field imported from arrays has ascending axes and, at each coordinate, the value and '
    'masked state the caller gave there, whatever the order of the axes (ascending or descending), the layout of the '
    'values (transposed or not), the form of the axes (lists, arrays, mesh grids), and whether masked points are given '
    'by a mask or by NaN. Copies, component fields, mask fields and the setters of values, mask, axes and units give '
    'exactly the corresponding object.',
    quant='every grid, value, mask, unit, axis order, layout and way of passing them',
    why='tests import a few fields with ascending axes; order, layout, NaN and mask interact and single lines are never built',
    files=[FLD, SF, VF], mech=[('import_from_arrays', SF), ('import_from_arrays', VF), ('setters', SF)],
    obs=['axe_x', 'axe_y', 'values', 'comp_x', 'comp_y', 'mask', 'unit_*'])
P['C02'] = dict(
    title='Cropping keeps exactly the requested window',
    statement='Cropping a field to an interval of coordinates or of indices keeps exactly the grid points inside it '
    '(bounds included), each with its value, masked state and units, in place or not; intervals that are reversed or '
    'outside the field are refused and change nothing. Removing the masked border keeps every valid point (soft), or '
    'leaves a field without masked points (hard).',
    quant='every field, window (on, between and beyond grid points) and mask, after any history of operations',
    why='tests crop one or two windows of one field; boundary windows, single lines, all mask shapes are never tried',
    files=[FLD, SF, VF], mech=[('crop', FLD), ('crop', SF), ('crop', VF), ('crop_masked_border', SF), ('crop_masked_border', VF)],
    obs=['crop', 'crop_masked_border'])
P['C03'] = dict(
    title='Extending and mirroring keep the field and add the right points',
    statement='Extending a field leaves every existing point unchanged and adds the requested number of lines on each '
    'requested side, masked or with the given value, with axes continued by the spacing at that end. Mirroring a '
    'uniform unmasked field about a line keeps the part on the kept side and adds at each mirrored coordinate the '
    'interpolated value of its image times the given coefficient.',
    quant='every field, number of lines per side, mirror position (inside, on the border, outside) and coefficient',
    why='tests use one extension and one mirror position; combinations of sides and positions between grid points are untested',
    files=[FLD, SF, VF], mech=[('extend', FLD), ('extend', SF), ('extend', VF), ('mirroring', SF), ('mirroring', VF)],
    obs=['extend', 'mirroring'])
P['C04'] = dict(
    title='Rotation moves points, vectors and units together',
    statement='Rotating a field by a multiple of 90 degrees moves every point (value and masked state) to its rotated '
    'coordinate, turns the vectors by the same angle, exchanges the units of the axes for odd quarter turns, and keeps '
    'the axes ascending; four quarter turns give the field back, and other angles are refused and change nothing.',
    quant='every field, any multiple of 90 degrees (also negative or beyond 360), in place or not, in any sequence',
    why='tests rotate one field by a few angles; the composition laws hold only if every angle, shape and mask is right',
    files=[FLD, SF, VF], mech=[('rotate', FLD), ('rotate', SF), ('rotate', VF)], obs=['rotate'])
P['C05'] = dict(
    title='Scaling, unit changes and origin shifts keep physical meaning',
    statement='Scaling a field multiplies each coordinate and value, as a physical quantity, by the given number or '
    'quantity (a negative factor reverses the axis together with values and masks, and the matching vector component); '
    'changing a unit keeps every physical quantity and refuses incompatible units; setting the origin subtracts it from '
    'the coordinates and touches nothing else.',
    quant='every field, factor (number or quantity, positive or negative, any unit), unit family and origin',
    why='tests use a handful of positive factors and one unit change; sign, unit and mask combinations are untested',
    files=[FLD, SF, VF], mech=[('scale', FLD), ('scale', SF), ('scale', VF), ('change_unit', FLD), ('set_origin', FLD)],
    obs=['scale', 'change_unit', 'set_origin'])
P['C06'] = dict(
    title='Field arithmetic is pointwise, unit-correct and mask-propagating',
    statement='Sums, differences, products, quotients, powers, negation and absolute value of fields with numbers, '
    'quantities, arrays and fields act on each point separately, combine units as physical quantities, and mask a '
    'result point exactly where an operand is masked or a divisor field/array is zero. Fields sharing only part of '
    'their grid are added on the common points; incompatible units or grids are refused; the operands are unchanged.',
    quant='every pair of fields (equal, overlapping or disjoint grids), masks, units and operand kind',
    why='tests add and multiply two fixed fields; partial overlap, unit prefixes, zero divisors and masks are not combined',
    files=[SF, VF], mech=[('__add__, __mul__, __truediv__, __pow__', SF), ('__add__, __mul__, __truediv__, __pow__', VF)],
    obs=['arithmetic operators'])
P['C07'] = dict(
    title='Operations not done in place never change another field',
    statement='After any sequence of operations, changing one field (values, mask, units, axes, in-place operations, or '
    'the arrays it was imported from) leaves every other field the user holds unchanged: no result shares data with '
    'its source, and an operation not asked to work in place leaves its source as it was.',
    quant='every history of operations on several fields, in-place and not',
    why='aliasing shows only after a later modification of one of two related objects; unit tests call one operation and stop',
    files=[FLD, SF, VF], mech=[('copy', FLD), ('inplace arguments', SF), ('setters', SF)],
    obs=['all public attributes of all fields after each call'])
P['C08'] = dict(
    title='Masked points never contribute',
    statement='Minimum, maximum, mean, median, norms, iteration, export to scattered points, magnitude, angle and '
    'integrals of a field depend only on its unmasked points and equal the mathematical definition over them; an '
    'integral across a masked point is not silently computed.',
    quant='every field and mask, including masks set after creation and masks hiding the extreme values',
    why='tests use fields whose masked points are few and whose masked values do not affect the result',
    files=[SF, VF], mech=[('min, max, mean, median, get_norm, __iter__', SF), ('min, max, get_norm, magnitude, theta, __iter__', VF),
                          ('integrate_over_line, integrate_over_surface', SF)],
    obs=['returned numbers'])
P['C09'] = dict(
    title='Lookups return the value at the requested place',
    statement='Looking up a value, an index on an axis, the points around a position or a profile returns the data of '
    'the requested place: the grid value on grid points, the linear interpolation of the surrounding points between '
    'them, masked if one of these is masked, averages over exactly the points of an interval; positions outside the '
    'field are refused.',
    quant='every field, mask and position (on, between, at the ends, outside)',
    why='tests look up a few positions of one unmasked field',
    files=[FLD, SF, VF], mech=[('get_indice_on_axe, get_points_around', FLD), ('get_value, get_profile', SF), ('get_value, get_profile', VF)],
    obs=['get_value', 'get_indice_on_axe', 'get_points_around', 'get_profile'])
P['C10'] = dict(
    title='Filling and smoothing respect the valid data',
    statement='Filling masked points leaves every valid point unchanged and leaves no masked point: with the given '
    'value, with the value of a nearest valid point, or with a linear interpolation that is exact on affine data inside '
    'the valid zone and never exceeds the range of the valid data. Uniform smoothing is the mean over the window with '
    'reflected borders, and keeps constant fields constant.',
    quant='every field and mask (interior, border, blocks), in place or not, cropped or not',
    why='tests compare one field with a stored result; the laws concern all masks',
    files=[SF, VF], mech=[('fill', SF), ('fill', VF), ('smooth', SF), ('smooth', VF)], obs=['fill', 'smooth'])
P['C11'] = dict(
    title='Resampling in space averages the right blocks',
    statement='Reducing the spatial resolution by a factor n gives, for each block of n by n points, the mean of its '
    'valid points at the centre of the block (masked only when the whole block is), units unchanged, in place or not; '
    'making a field evenly spaced samples its bilinear interpolation between the same end coordinates.',
    quant='every field size, factor (odd, even, not dividing the size) and mask',
    why='tests reduce one field by one even factor',
    files=[SF, VF, FLD], mech=[('reduce_spatial_resolution', SF), ('reduce_spatial_resolution', VF), ('make_evenly_spaced', SF)],
    obs=['reduce_spatial_resolution', 'make_evenly_spaced'])

TF = 'IMTreatment/core/temporalfields.py'
TSF = 'IMTreatment/core/temporalscalarfields.py'
TVF = 'IMTreatment/core/temporalvectorfields.py'
FDS = 'IMTreatment/core/fields.py'
P['C12'] = dict(
    title='A temporal set stays ordered in time, on one grid, one time per field',
    statement='After any history of additions, removals, setters and transformations, a set of temporal fields has one '
    'time per field, is sorted by time, and all its fields are on the grid and axis units the set itself shows. Adding '
    'a field puts a copy of it at its time (converted to the time unit of the set) and refuses fields of another kind '
    'or on another grid, changing nothing; removing fields removes exactly the requested ones with their times. '
    'Indexing, iteration, copies, component sets and comparison give exactly the corresponding fields and times.',
    quant='every sequence of additions (any order of times, any compatible time unit), removals, setters and transformations',
    why='no test builds a temporal set; the order and pairing only break for particular histories and units',
    files=[TF, FDS, TVF], mech=[('add_field', TF), ('remove_fields', TF), ('times', TF), ('unit_times', TF), ('copy', TF)],
    obs=['times', 'fields', 'unit_times', 'axe_x', 'axe_y', 'unit_x', 'unit_y'])
P['C13'] = dict(
    title='Spatial operations on a temporal set act on every field alike',
    statement='Cropping (in space and time), removing the border masked at all times, extending, rotating, mirroring, '
    'scaling (also the time), changing units, shifting the origin, smoothing, filling with a value or from neighbours, '
    'reducing the spatial resolution and making the axes even give the set whose every field is the transformed field, '
    'with the axes and units of the set following, in place or as a new set (the original then being unchanged); '
    'refused windows, units and angles change nothing.',
    quant='every set, operation and parameter, in place or not, in any sequence',
    why='no test transforms a temporal set; the set and its fields each keep axes, which must move together',
    files=[TF, FDS, TSF, TVF], mech=[('crop', TF), ('crop_masked_border', TF), ('extend', TF), ('mirroring', TF), ('scale', TF),
                                     ('change_unit', TF), ('fill', TSF), ('fill', TVF), ('rotate', FDS)],
    obs=['fields', 'times', 'axe_x', 'axe_y', 'unit_x', 'unit_y', 'unit_times'])
P['C14'] = dict(
    title='Statistics over time use exactly the valid values of each point',
    statement='At each point, the mean, minimum and maximum fields of a temporal set are those of the values valid '
    'there, masked when no more than the requested number of values are available; fluctuations are the fields minus '
    'the mean; kinetic energies and Reynolds stresses are the corresponding moments of the mean and fluctuations, with '
    'the square of the unit; the cumulated mask, the time profiles (with their mask and time window) and the recurrence '
    'map list exactly the values and distances of the fields.',
    quant='every set, every pattern of masked points (also in the first field, or everywhere), every minimal number of values',
    why='no test computes a temporal statistic; a value is wrong only where fields are masked at different times',
    files=[TF, TSF, TVF], mech=[('get_mean_field', TF), ('get_fluctuant_fields', TF), ('get_min_field', TSF), ('get_max_field', TSF),
                                ('get_reynolds_stress', TVF), ('get_tke', TVF), ('get_time_profile', TF), ('get_recurrence_map', TF)],
    obs=['get_mean_field', 'get_min_field', 'get_max_field', 'get_tke', 'get_reynolds_stress', 'get_time_profile'])
P['C15'] = dict(
    title='Arithmetic and resampling in time keep fields and times together',
    statement='Sums, differences, products, quotients, powers and negation of temporal sets (with numbers, quantities, '
    'fields and other sets) apply to each field and keep the times and the time unit; sets at the same physical times '
    'combine field by field, and adding sets at other times gathers all the fields at their own times. Interpolating '
    'in time gives the linear mix of the two surrounding fields (a copy of the field at its own time); augmenting, '
    'reducing (with or without averaging) and filling masked points in time give exactly the fields and times this '
    'interpolation or averaging prescribes.',
    quant='every set, operand, time (on, between and outside the times of the set), factor and pattern of masked points',
    why='no test does arithmetic on temporal sets; pairing of times, units and masks can only be judged over histories',
    files=[TF, TSF, TVF], mech=[('__add__', TF), ('__mul__', TF), ('__truediv__', TF), ('__pow__', TF), ('get_interpolated_field', TF),
                                ('reduce_temporal_resolution', TF), ('augment_temporal_resolution', TF), ('fill', TSF), ('fill', TVF)],
    obs=['fields', 'times', 'unit_times'])

PR = 'IMTreatment/core/profile.py'
P['C16'] = dict(
    title='A profile stays sorted, with each value and mask at its own abscissa',
    statement='However a profile is made or changed (creation from unsorted data, masks and nans, setters, adding, '
    'removing and gathering points), it is sorted along x and each value and mask stays with its x. Cropping keeps '
    'exactly the points inside the window (by index, by x inclusive, by y exclusive, or both), trimming the masked '
    'border, dropping masked points, merging points at the same x and masking marginal values remove exactly those '
    'points; scaling and changing units keep the physical points. Results do not share data with their source, in-place '
    'calls change only their object, and refused calls (wrong lengths, empty windows, other units) change nothing.',
    quant='every profile (any order, spacing, sign, mask), window and sequence of operations, in place or not',
    why='tests use one sorted, evenly spaced profile; pairing and bounds break for particular windows, masks and histories',
    files=[PR], mech=[('__init__', PR), ('x', PR), ('mask', PR), ('crop', PR), ('crop_masked_border', PR), ('scale', PR),
                      ('change_unit', PR), ('add_points', PR), ('remove_doublons', PR)],
    obs=['x', 'y', 'mask', 'unit_x', 'unit_y'])
P['C17'] = dict(
    title='Arithmetic of profiles is pointwise, unit-aware and leaves operands alone',
    statement='Sums, differences, products, quotients, powers and negation of profiles (with numbers, quantities and '
    'other profiles) are those of the values at each x, converted to the units involved; a result is masked exactly where '
    'an operand is or where the division is by zero; profiles on other x axes or of other dimensions are refused. No '
    'operand changes.',
    quant='every pair of profiles, unit (compatible or not), mask and operand kind, in any sequence',
    why='tests combine a profile with itself or with a profile in the same unit and without masks or zeros',
    files=[PR], mech=[('__add__', PR), ('__sub__', PR), ('__mul__', PR), ('__truediv__', PR), ('__pow__', PR)],
    obs=['x', 'y', 'mask', 'unit_x', 'unit_y'])
P['C18'] = dict(
    title='Values, integrals and resampling of a profile follow its valid points',
    statement='Looking up a value at an x (or index), or the positions of a value, interpolates linearly between '
    'neighbouring valid points and gives nothing outside; minimum, maximum, mean and integral (with its unit) use exactly '
    'the valid points; the gradient is the centred difference (one-sided at the ends) in the unit of y per x; filling, '
    'smoothing, making the points even, augmenting the resolution and convolving give the linear interpolation, moving '
    'average and discrete convolution of the valid points, in place or as a new profile; uneven axes are refused where '
    'the operation needs even ones.',
    quant='every profile, mask, position (at, between and outside points), factor, size and mode',
    why='tests look up a handful of positions on one unmasked increasing profile',
    files=[PR], mech=[('get_interpolated_values', PR), ('get_value_position', PR), ('get_interpolator', PR), ('get_integral', PR),
                      ('get_gradient', PR), ('fill', PR), ('smooth', PR), ('evenly_space', PR), ('augment_resolution', PR),
                      ('get_convolution', PR)],
    obs=['get_interpolated_values', 'get_value_position', 'get_integral', 'get_gradient', 'x', 'y', 'mask'])
PT = 'IMTreatment/core/points.py'
OP = 'IMTreatment/core/orientedpoints.py'
TPT = 'IMTreatment/core/temporalpoints.py'
P['C19'] = dict(
    title='A set of points keeps each position with its value and directions',
    statement='Whatever is done to a set of points (plain or oriented), each position stays with its own value (and '
    'directions): adding, removing, joining (converted to the units of the first), cropping, cutting out an area, '
    'sorting, decomposing, dropping NaN or doubles, rotating, reversing, scaling, changing units or origin give exactly '
    'the selected or transformed points, in place or as a new set, and nothing else changes; joining incompatible sets '
    'and lengths that do not fit are refused. Smoothing, augmenting, profiles, velocities, values taken from fields and '
    'densities are those of the points, in the right units.',
    quant='every set (with or without values, directions, NaN, ties), unit, window and sequence of operations',
    why='tests use one set of points without history; values and directions are lost or misplaced only in combinations',
    files=[PT, OP], mech=[('__add__', PT), ('add', PT), ('remove', PT), ('crop', PT), ('cut', PT), ('sort', PT), ('scale', PT),
                          ('rotate', PT), ('get_velocity', PT), ('get_points_density2', PT), ('crop', OP), ('sort', OP)],
    obs=['xy', 'v', 'orientations', 'unit_x', 'unit_y', 'unit_v', 'returned profiles and fields'])
P['C20'] = dict(
    title='Sets of points over time stay ordered by time, each with its own time',
    statement='A temporal collection of point sets always lists its sets by increasing time, each with the time it was '
    'added with (converted to the time unit of the collection); removing, cropping in time and space, scaling, changing '
    'units, setting times and smoothing act on every set and on the times alike, in place or as a new collection, and '
    'neither the sets given nor the original change.',
    quant='every collection, insertion order, time unit, window, factor (negative too) and sequence of operations',
    why='tests add sets in order and never compare the original, the units of the collection or the order afterwards',
    files=[TPT, PT], mech=[('add_pts', TPT), ('remove_pts', TPT), ('crop', TPT), ('scale', TPT), ('change_unit', TPT)],
    obs=['times', 'point_sets', 'unit_times', 'unit_x', 'unit_y'])
FO = 'IMTreatment/file_operation/file_operation.py'
P['C21'] = dict(
    title='Saved objects read back the same',
    statement='An object (field, temporal field, profile, points, temporal points) exported to a file and imported again '
    'is the same object: axes, values, masks, units and times, whatever was done to it before, '
    'compressed or not, with or without extension in the name, by relative or absolute path; exporting changes neither '
    'the object nor any other file, names get the extension of the format exactly once, an existing file is replaced, and '
    'missing folders or files and unknown extensions are refused. Gathering a folder of saved fields into one temporal '
    'field keeps them in the order of the file names. Matlab files read back the fields and points they were made of.',
    quant='every object, mask, unit, file name and sequence of exports and imports',
    why='tests export one object per kind once; names, masks, sizes of one and overwritten files are never combined',
    files=[FO], mech=[('export_to_file', FO), ('import_from_file', FO), ('check_path', FO), ('imts_to_imt', FO),
                      ('export_to_matlab', FO), ('import_from_matlab', FO), ('matlab_parser', FO)],
    obs=['import_from_file', 'import_from_matlab', 'names and contents of the files'])
P['C22'] = dict(
    title='Tables, pictures and DaVis buffers put every value at its place',
    statement='Text tables are read into the profile, points or field with each row at its own coordinates, whatever the '
    'order of the rows, the columns asked for, missing rows and NaN (which become masked points), and are written with one '
    'row per point, masked ones as NaN. Grey pictures are written and read with the top row at the largest y and each '
    'pixel in its column, alone or as numbered series with their times. DaVis images and vectors are placed on the axes '
    'given by the scales, with the scaling of the values applied once, decreasing axes reversed together with the '
    'components, and missing or flagged vectors masked; series keep the increment between the times.',
    quant='every table, column choice, row order, picture, scale (negative too), frame and series window',
    why='tests import one file of each kind; orders, holes, non-square grids and negative scales are never tried',
    files=[FO], mech=[('import_sf_from_ascii', FO), ('import_vf_from_ascii', FO), ('import_vfs_from_ascii', FO),
                      ('export_to_ascii', FO), ('import_from_picture', FO), ('export_to_pictures', FO),
                      ('import_from_IM7', FO), ('import_from_VC7', FO), ('import_from_VC7s', FO)],
    obs=['imported objects', 'rows of the text files', 'pixels of the pictures'])
FT = 'IMTreatment/field_treatment/field_treatment.py'
VC = 'IMTreatment/vortex_criterions/vortex_criterions.py'
P['C23'] = dict(
    title='Derivatives of fields are the differences of the values, in the right units, masked where they use masked points',
    statement='On an evenly spaced grid, the gradients of a scalar or vector field are the central differences of its '
    'values inside and the one-sided ones at the borders, divided by the steps of the axes and expressed in the unit of '
    'the values over that of the axis; they are masked exactly where one of the differences uses a masked point, and '
    'refused on a line of points. Divergence (converted between axis units), vorticity, shear stress, circulation '
    'over a window divided by its area, the perpendicular field, and the field rebuilt from the gradients of a bilinear '
    'one follow from them, for one field and for every time of a temporal set; the field itself never changes.',
    quant='every field, mask, grid step, unit, window size and set of times',
    why='tests compare two or three fields in one unit with equal steps and no mask at the borders',
    files=[FT, VC], mech=[('get_gradients', FT), ('get_divergence', FT), ('get_track_field', FT),
                          ('reconstruct_from_gradients', FT), ('get_vorticity', VC), ('get_divergence', VC),
                          ('get_stokes_vorticity', VC)],
    obs=['values', 'mask', 'unit_values', 'axe_x', 'axe_y', 'times'])
P['C24'] = dict(
    title='Vortex criteria follow their definitions at every point of a field',
    statement='At every point the Q, Nk, Delta and lambda2 criteria, the swirling strengths, the residual and shear parts '
    'of the vorticity and the eigenvalues of the Jacobian are those of the local velocity gradients; gamma1, gamma2 (and '
    'their weighted forms), kappa1, kappa2, the angle deviation, the enstrophy and the non-local residual vorticity are '
    'those of the velocities of the grid points within the radius (given in grid steps or in axis units), the centre '
    'counted only in the enstrophy; iota follows the angles of the neighbours. A point is masked where its '
    'neighbourhood leaves the field, holds a masked point or is excluded by the given mask, and nowhere else (Delta and '
    'the improved strength are also masked where nothing swirls); as arrays or as fields, the results are the same.',
    quant='every field, mask, grid step, unit, radius and excluded zone',
    why='no test covers these criteria at all',
    files=[VC, FT], mech=[('get_gamma', VC), ('get_kappa', VC), ('get_q_criterion', VC), ('get_Nk_criterion', VC),
                          ('get_delta_criterion', VC), ('get_lambda2', VC), ('get_swirling_strength', VC),
                          ('get_residual_vorticity', VC), ('get_shear_vorticity', VC), ('get_angle_deviation', VC),
                          ('get_enstrophy', VC), ('get_iota', VC), ('get_NL_residual_vorticity', VC),
                          ('get_jacobian_eigenproperties', FT)],
    obs=['values', 'mask', 'unit_values', 'returned arrays'])
VD = 'IMTreatment/vortex_detection/vortex_detection.py'
P['C25'] = dict(
    title='Critical points stay sorted in time, and their trajectories follow the nearest points',
    statement='A set of critical points keeps, for each of its times in increasing order, the foci, nodes and saddles it was '
    'given, each as an independent copy; a time already there, or points in other units, are refused. Computing the '
    'trajectories puts every point in exactly one trajectory of its kind: between successive times points and '
    'trajectories are paired by increasing distance, never further than the given distance (a number or a quantity), and '
    'a trajectory without a new point ends; the longest come first. Adding, removing, joining, or cropping in space '
    'makes trajectories obsolete, cropping in time keeps their part in that interval, and cleaning removes the '
    'trajectories with too few points together with these points. Scaling, changes of unit and of origin act on points and '
    'trajectories alike. The topological simplification merges the nearest points first, at their centre of mass, or '
    'deletes the nearest pairs of opposite index, and points of total index zero disappear.',
    quant='every set of points, order of times, maximal distance, window, factor, unit and sequence of these calls',
    why='tests compare one set of critical points of one flow with a stored result; orders of times, ties of windows, obsolete '
    'trajectories and histories of calls are untested',
    files=[VD, 'IMTreatment/core/points.py'],
    mech=[('CritPoints', VD), ('_get_cp_time_evolution', VD), ('TopoPoints.simplify', VD)],
    obs=['foc', 'foc_c', 'node_i', 'node_o', 'sadd', '*_traj', 'times', 'unit_*'])
P['C26'] = dict(
    title='Critical points are found in the cells where the velocity winds around zero, with their type',
    statement='On an unmasked vector field with evenly spaced axes, get_critical_points (kinds pbi and pbi_cell) finds exactly '
    'one critical point in each cell of the grid around which the velocities at the corners wind around zero, and none in '
    'the others. It is a saddle point when they wind against the way the corners are taken; otherwise the mean velocity '
    'gradient of the cell decides: complex eigenvalues give a focus, clockwise (foc_c) when dvy/dx is negative, real ones a '
    'node, diverging or converging after their sign. With pbi_cell the point is at the centre of the cell, with pbi where '
    'the bilinear velocity of the cell is zero (at the centre when the velocity of the cell is affine). Points carry the '
    'units of the axes, the given time, or the times and time unit of the fields. Masked fields are refused. The given '
    'fields never change, whether they are smoothed first or not.',
    quant='every evenly spaced grid, step along x and y, field without zero component, time, unit and kind',
    why='tests detect the points of one stored flow; the winding of each combination of corner velocities, steps different '
    'along x and y, affine cells and opposite velocities are untested',
    files=[VD], mech=[('get_critical_points', VD), ('VF.get_cp_cell_position', VD), ('VF.get_cp_position', VD), ('VF.get_pbi', VD)],
    obs=['foc', 'foc_c', 'node_i', 'node_o', 'sadd', 'times', 'unit_*'])
BL = 'IMTreatment/boundary_layer/boundary_layer.py'
P['C27'] = dict(
    title='Boundary layer thicknesses are those of their definitions, on profiles and on fields',
    statement='get_bl_thickness gives the first place, in increasing distance to the wall at zero, where the velocity reaches '
    'the given part (95 % by default) of its maximum. get_displ_thickness and get_momentum_thickness integrate, with '
    'trapezes, 1 - u/U and u/U (1 - u/U) over the valid points from the wall to the 95 % thickness, U being the largest '
    'velocity among them; a point at rest is added at the wall when the profile does not start there, and masked points '
    'are left out. get_shape_factor is the ratio of the displacement to the momentum thickness. On a scalar field, each '
    'gives a profile with one value per position along the swept axis (direction 1: one per x, direction 2: one per y), '
    'the value that the line there gives, zero for a wholly masked line, with the units of the swept axis and of the '
    'thickness; the shape factor is masked where the momentum thickness is not positive. The given object does not change.',
    quant='every profile and scalar field, mask, order of the points, wall distance, part and direction',
    why='no test covers the boundary layer module',
    files=[BL], mech=[('get_bl_thickness', BL), ('get_displ_thickness', BL), ('get_momentum_thickness', BL),
                      ('get_shape_factor', BL)],
    obs=['returned number', 'x', 'y', 'mask', 'unit_x', 'unit_y'])
SF_ = 'IMTreatment/core/scalarfield.py'
P['C28'] = dict(
    title='Zones and histograms of a scalar field count each valid point once, at its place',
    statement='get_zones_centers gives one point per zone, a zone being a maximal set of valid grid points, neighbours of each '
    'other along the axes, with values within the given bounds (included; absolute, or relative to the extrema of the '
    'field): its geometrical center, its center of mass weighted by the absolute values, or the place of its extremum, '
    'with the units of the axes, also on unevenly spaced axes; None when there is no zone; reversed bounds, and relative '
    'bounds of opposite signs, are refused. get_histogram counts the valid points in each of the equal bins between the '
    'extreme values (or within the given range, both ends included), at the center of the bin, as counts, cumulated, or '
    'divided by the total count and the width of the bins. Neither changes the field or the bounds given.',
    quant='every scalar field, mask, spacing, unit, bounds, kind, number of bins and range',
    why='one test compares the zones of one stored field; no test covers histograms, masks or uneven axes',
    files=[SF_], mech=[('ScalarField.get_zones_centers', SF_), ('ScalarField.get_histogram', SF_)],
    obs=['xy', 'unit_x', 'unit_y', 'x', 'y', 'given bounds'])
