#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
A = 'beam_telescope_analysis/'
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[A + f for f in files],
                     mechanism=[dict(name=n, where=A + w) for n, w in mechanism],
                     observe_at=observe_at or [], hook_needed=None)))

prop('C01', 'Chunked reading never splits, loses, duplicates or reorders events',
 'Reading a table sorted by event number in chunks delivers, concatenated in order, exactly the rows of the requested event and index range, each row once and in file order; no event is divided between two chunks, no chunk is longer than the chunk size, and the index handed out with a chunk is where the next chunk starts. When the range is limited by a stop index that is not the end of the table and no stop event lies before it, the event cut by that index (the last one) is withheld whole. If a single event does not fit into a chunk, or a required start event is missing, an error is raised; rows are never dropped silently.',
 ['inputs', 'configurations'], 'all sorted event-number columns (any multiplicity per event), all chunk sizes, start/stop events, start/stop indices and option flags',
 'Every analysis step reads through this generator, but the tests that exercise it need data files that are not in the repository; none varies where chunk borders fall with respect to events.',
 ['tools/analysis_utils.py'], [('data_aligned_at_events', 'tools/analysis_utils.py:data_aligned_at_events')], ['chunks and indices yielded by the generator'])

prop('C02', 'Event-number set operations are exact and stay inside their arrays',
 'For event-number arrays sorted in ascending order, of any lengths including zero: the common events of two arrays are returned once each in ascending order; the membership test marks exactly the entries of the first array that occur in the second; and the maximum-multiplicity union contains every event number as often as the array that has it most often, sorted. No call reads or writes outside the arrays it is given.',
 ['inputs'], 'all pairs of ascending int64 arrays, including empty ones and arrays with repeated event numbers',
 'One hand-picked example per function is tested; array lengths, repeats at either end and empty arrays are not, and an out-of-bounds access usually goes unnoticed in a test.',
 ['cpp/AnalysisFunctions.h', 'cpp/analysis_functions.pyx', 'tools/analysis_utils.py'],
 [('getEventsInBothArrays / getMaxEventsInBothArrays / in1d_sorted', 'cpp/AnalysisFunctions.h'), ('get_events_in_both_arrays, get_max_events_in_both_arrays, in1d_events', 'tools/analysis_utils.py')])

prop('C03', 'Index histograms count exactly or raise',
 'A 1D, 2D or 3D histogram of integer indices holds in every bin exactly the number of entries with those indices, so its total is the number of entries. An index outside the histogram shape in any dimension and a bin whose counter would overflow raise an error; nothing is written outside the histogram and no entry is put into another bin or dropped.',
 ['inputs'], 'all int32 index arrays and all histogram shapes, and all contents of the counters',
 'Tests compare a few random in-range samples to numpy; the range check of each axis and counter saturation are never reached.',
 ['cpp/AnalysisFunctions.h', 'cpp/analysis_functions.pyx', 'tools/analysis_utils.py'],
 [('histogram_1d/2d/3d', 'cpp/AnalysisFunctions.h'), ('hist_1d_index, hist_2d_index, hist_3d_index', 'tools/analysis_utils.py')])

prop('C04', 'Event-wise joins and correlations pair exactly the hits that belong together',
 'Merging two hit tables sorted by event number returns every pair of rows with equal event number exactly once, in table order, with unchanged row contents. Filling position correlations adds one count per pair of hits of the same event at the bin of the two positions, and correlating hits over an event range adds one count per pair whose event distance lies between one and the range; no other bin changes.',
 ['inputs'], 'all sorted event-number columns with any multiplicities and gaps, all positions inside the histograms and all event ranges',
 'No test covers these compiled loops without the missing data files; running out of either table, repeated events and gaps are the cases that matter.',
 ['tools/analysis_utils.py'], [('merge_on_event_number, correlate_position_on_event_number, correlate_hits_on_event_range', 'tools/analysis_utils.py')])

prop('C05', 'Clusters of all planes are merged per event without loss or mixing',
 'Mapping clusters onto an event list puts each cluster into a slot of its own event, in order, at most one per slot, and leaves all other slots untouched. The merged table of several planes contains, for every plane, every cluster of that plane exactly once in a row of its own event with unchanged position, charge and size; a plane without a cluster in a row has a not-a-number position there; and a hit-flag bit is set exactly for the planes that have a cluster in the row.',
 ['inputs', 'configurations'], 'all sorted event numbers and cluster multiplicities per plane and event, all chunk sizes that fit the events',
 'Only the mapping helper is tested, with one example; the merge over several planes needs data files that are not available, and the chunk borders differ per plane.',
 ['hit_analysis.py', 'tools/analysis_utils.py'], [('merge_cluster_data', 'hit_analysis.py:merge_cluster_data'), ('map_cluster', 'tools/analysis_utils.py:map_cluster')])

prop('C06', 'Coordinate transformations are rigid and local/global are inverse',
 'For every rotation (alpha, beta, gamma) and translation the rotation matrix is orthonormal with determinant one and is the product of the rotations about x, y and z in the documented order; transforming a position from local to global and back, with the geometry functions or through a DUT, returns the position, keeps distances between points, and maps the local origin onto the DUT position. Invalid (non-rotation) matrices are not needed and coordinates are never exchanged between axes.',
 ['inputs', 'configurations'], 'all angles, all translations, all positions (over the reals)',
 'Tests use a handful of angles and positions; sign and order errors cancel for many of them.',
 ['tools/geometry_utils.py', 'telescope/dut.py'],
 [('rotation_matrix, translation_matrix, local_to_global_transformation_matrix, global_to_local_transformation_matrix, apply_*', 'tools/geometry_utils.py'), ('Dut.local_to_global_position, Dut.global_to_local_position', 'telescope/dut.py')])

prop('C07', 'Track intersections lie on the track and on the plane',
 'The intersection of a line with a plane or with a DUT lies on the line and on the plane, for every line that is not parallel to it; parallel lines give not-a-number and do not affect the other lines in the same call. Intersecting with a DUT gives the same point as intersecting with the plane through the DUT position whose normal is the rotated local z axis.',
 ['inputs', 'configurations'], 'all line origins and directions, all DUT positions and rotations (over the reals)',
 'Not covered by the runnable tests at all; mixed parallel and crossing lines in one call and rotated planes are the interesting inputs.',
 ['tools/geometry_utils.py'], [('get_line_intersections_with_plane, get_line_intersections_with_dut', 'tools/geometry_utils.py')])

prop('C08', 'Euler angles recovered from a rotation reproduce that rotation',
 'The angles extracted from any rotation matrix give back the same rotation matrix, including at gimbal lock (second angle of plus or minus 90 degrees), and they are inside their documented ranges.',
 ['inputs'], 'all rotation matrices (over the reals)',
 'Tests sample a few angle triples away from the singularity.',
 ['tools/geometry_utils.py'], [('euler_angles', 'tools/geometry_utils.py:euler_angles')])

prop('C09', 'Pixel index and local position convert into each other for every sensor',
 'For every rectangular-pixel DUT and every column/row, fractional or integer, in its range, converting the index to a local position and back returns the index; neighbouring pixels are one pitch apart, the sensor is centred on the origin and every position lies inside the extents the DUT reports. Indices outside [0.5, n+0.5] and positions outside the sensor are rejected with an error, as are missing values (NaN), and non-rectangular designs give distinct pixel centres for distinct pixels.',
 ['inputs', 'configurations'], 'all DUT types, pixel sizes, numbers of pixels and all index/position arrays (over the reals)',
 'No runnable test covers the sensor classes; edges and the many sensor subclasses are not sampled.',
 ['telescope/dut.py'], [('RectangularPixelDut.index_to_local_position / local_position_to_index / x_extent / y_extent', 'telescope/dut.py'), ('Diamond3DpCVD, DiamondPseudo3DpCVD', 'telescope/dut.py')])

prop('C10', 'In-pixel positions are folded into the primitive cell without distortion',
 'Mapping a local position to the primitive cell of a DUT gives a position inside the cell, positions of equivalent pixels (one primitive cell apart) map to the same point, and within one cell the mapping is a shift, so in-pixel distances are preserved (up to the mirror image for sensors with mirrored cells).',
 ['inputs', 'configurations'], 'all local positions and pixel sizes for every sensor class (over the reals)',
 'Not tested.', ['telescope/dut.py'], [('map_to_primitive_cell of the DUT classes', 'telescope/dut.py')])

prop('C11', 'Cluster shapes and Morton codes are encoded without collisions',
 'Encoding column and row as Morton code is a bijection on the supported ranges and decodes back to the same pair. The cluster shape calculated from hit positions depends only on the set of relative hit positions, different pixel patterns inside the encodable 8 x 8 area get different shapes, patterns that do not fit get the documented invalid shape, and converting a shape back into a hit array gives the pattern.',
 ['inputs'], 'all column/row values of the supported width and all cluster patterns (exact 64 bit machine arithmetic)',
 'Not tested; a wrong mask bit only shows for some coordinate bits.',
 ['tools/analysis_utils.py'], [('xy2d_morton, d2xy_morton, calculate_cluster_shape, calculate_cluster_array, number_of_set_bits', 'tools/analysis_utils.py')])

prop('C12', 'Cluster properties describe exactly the hits of the cluster',
 'For every cluster built from hits, the size, the seed position, the smallest frame and the shape in the cluster file are those of exactly the hits carrying that cluster number in that event: the shape is the encoded pattern of the hit pixels (-1 if it does not fit into the 8 x 8 area or for positions), the seed is at a hit of the cluster, and the number of clusters is the one of the event; the widths the end-of-cluster functions store are the column and row ranges of the hits of the cluster. Hits of other clusters, events or chunks have no influence. The position errors in the cluster file are the intrinsic resolution of a pixel (pitch / sqrt(12)). Every hit appears in the hit output once, in order and unchanged.',
 ['inputs'], 'all hit patterns, frames and charges within an event',
 'The cluster tests need missing data files and compare two stored runs.',
 ['hit_analysis.py', 'tools/analysis_utils.py'], [('end of cluster functions in cluster_hits', 'hit_analysis.py:cluster_hits')])

prop('C13', 'Track finding only regroups hits within an event and keeps every hit',
 'Track finding rearranges the clusters of each plane only within their event: per event and plane, the set of stored clusters, with all their columns, is the same before and after; the number of rows and the event numbers do not change, and the hit flag of each row names exactly the planes that have a hit in it. An event with a single row is unchanged. Straight parallel tracks that are much farther apart than their scatter are recovered, whatever the order of the clusters in the planes and whatever the number of planes.',
 ['inputs', 'configurations'], 'all hit positions, missing-hit patterns, numbers of planes and hits per event',
 'Comparison with one stored file that is not available; the result depends on distances, so a handful of events cannot exercise all swaps.',
 ['track_analysis.py'], [('_find_tracks, find_tracks', 'track_analysis.py')])

prop('C14', 'Track selection keeps exactly the tracks that fulfil the requested flags',
 'Selecting tracks keeps, in order and unmodified, exactly those tracks that have hits in all required planes and none in the forbidden planes, that have the quality and isolated-hit flag set in each required plane in which they have a hit, and the isolated-track flag in all required planes, and that fulfil the query condition if one is given; all other tracks are dropped and no track is duplicated.',
 ['inputs', 'configurations'], 'all hit/quality/isolation flag values, all flag selections and all chunk sizes',
 'Needs data files that are not available; the masks are bit arithmetic over arbitrary plane numbers.',
 ['tools/data_selection.py'], [('select_tracks', 'tools/data_selection.py:select_tracks')])

prop('C15', 'Track quality and isolation flags mean what their distances say',
 'A stored track carries the quality flag of a plane exactly when it has a hit there that lies inside the limits of the plane (if limits are used) and within the quality distance of the track (inside the ellipse, or inside the box if a distance is below 2.5 pixel pitches); the isolated-track flag exactly when no other fitted track of the same event crosses the plane within the isolation distance; and the isolated-hit flag exactly when no other hit of the same event in that plane is within the isolation distance. Other events never influence the flags.',
 ['inputs', 'configurations'], 'all track intersections, hits and distances, and all numbers of tracks per event',
 'Needs data files that are not available; the flags depend on comparisons between all tracks of an event.',
 ['track_analysis.py'], [('store_track_data, _find_small_distance', 'track_analysis.py')])

prop('C16', 'Kalman filter steps equal the textbook update',
 'Prediction, correction and gain of the Kalman filter equal the linear Kalman equations for the given matrices, forward and backward; planes without a measurement or not selected leave the predicted state and covariance unchanged and their measurement has no influence; and the covariance stays symmetric. The smoothed result is the information-weighted mean of both directions and is stored for the plane it belongs to, whatever the order of the planes along the beam.',
 ['inputs', 'configurations'], 'all states, covariances, measurements and missing patterns of a chunk of tracks and all plane orders (over the reals)',
 'One stored reference file (not available) for one geometry.',
 ['tools/kalman.py'], [('_filter_predict_f, _filter_predict_b, _filter_correct, _filter_f, _filter_b, KalmanFilter.smooth', 'tools/kalman.py')])

prop('C17', 'State extrapolation follows the straight line and its Jacobian',
 'Extrapolating a track state from one plane to another gives the local intersection and slopes of the same straight line in the target plane for all positions and rotations of both planes, extrapolating back returns the state, and the transport matrix used for the covariance is the derivative of that extrapolation. Batched matrix helpers agree with matrix algebra.',
 ['inputs', 'configurations'], 'all states and plane poses with the track not parallel to the target plane (over the reals)',
 'One stored geometry, nearly perpendicular planes, for which most terms vanish.',
 ['tools/kalman.py'], [('_extrapolate_state, _calculate_track_jacobian, _mat_mul, _vec_mul, _mat_trans, _mat_inverse', 'tools/kalman.py')])

prop('C18', 'A telescope configuration survives saving and loading',
 'Saving a telescope and loading it again gives the same planes with the same indices, class, name, position, rotation, limits (stored as lower and upper limit), material budget, resolution and sensor attributes, and the same telescope rotation and translation; saving over an older file replaces its planes, other entries of the file are kept on request only. Iteration, names, pixel sizes and numbers are in the order of the plane indices and agree with the lookup by index. Planes of unknown type, with unknown attributes or without integer index are rejected, and attributes that a plane does not have cannot be set. A configuration can be given as file, text or dictionary.',
 ['inputs', 'configurations'], 'all attribute values and all sets of DUT types',
 'Tests use one configuration and only for the data-file driven steps.',
 ['telescope/telescope.py', 'telescope/dut.py'], [('Telescope.save_configuration / load_configuration / add_dut / open_configuation', 'telescope/telescope.py'), ('Dut', 'telescope/dut.py')])

prop('C19', 'Combining files never merges or loses events',
 'Combining several hit or track files appends all their rows in order with unchanged contents; rows of different files never share an event number, rows of one event of one file keep a common number, and event numbers increase over the whole output, also when a file is empty.',
 ['inputs', 'configurations'], 'all sorted event numbers per file, all numbers of files and chunk sizes',
 'Not tested.', ['tools/data_selection.py'], [('combine_files', 'tools/data_selection.py:combine_files')])

prop('C20', 'Reducing events keeps whole events and never more than requested',
 'Reducing a file to a maximum number of events stores no more distinct events than requested and, if the table is read in one chunk and has at least as many, exactly the requested number; every stored event is complete and unmodified, and the output stays in event order.',
 ['inputs', 'configurations', 'schedules'], 'all event multiplicities, chunk sizes, limits and all random choices of events',
 'Not tested; depends on random sampling and on how events fall into chunks.',
 ['tools/data_selection.py'], [('reduce_events and the event sampling in select_tracks', 'tools/data_selection.py')])

prop('C21', 'Parallel table processing equals sequential processing',
 'Applying a function to a table with several worker threads and combining the results gives the same output as processing the chunks one after the other, in table order and each chunk once, for every thread schedule; an error in a worker is reported instead of leaving an incomplete output.',
 ['schedules', 'inputs', 'fault_sequences'], 'all interleavings of reader, workers and writer, all numbers of workers and chunks',
 'A test observes one schedule.',
 ['tools/smc.py'], [('SMC reader, async_worker, writer', 'tools/smc.py')])

prop('C22', 'Applying the alignment transforms every plane consistently and reversibly',
 'Applying the alignment to a hit or track file transforms the positions of every plane with the pose of that plane, track offsets like positions and track slopes like directions, with the telescope pose on top if beam alignment is requested (errors of track tables like directions, without sign); tables of single tracks use the pose of the plane they belong to; all other columns, the number and the order of the rows are unchanged, and going to global and back to local coordinates restores positions, offsets and slopes.',
 ['inputs', 'configurations'], 'all poses, hits, track parameters and chunk sizes (over the reals)',
 'Needs data files that are not available.',
 ['dut_alignment.py', 'telescope/telescope.py'], [('apply_alignment', 'dut_alignment.py:apply_alignment')])

prop('C23', 'Lookup helpers select exactly the requested rows',
 'Selecting data in an event range from a sorted table returns exactly the rows with start <= event < stop; the index lookup between two arrays returns for each entry a position that holds an equal value (or the fill value); and the closest-value search returns an index of minimal distance.',
 ['inputs'], 'all sorted arrays and all ranges and values',
 'Not tested by the runnable tests.',
 ['tools/analysis_utils.py'], [('get_data_in_event_range, in1d_index, find_closest', 'tools/analysis_utils.py')])

prop('C24', 'Histogram statistics equal those of the binned samples',
 'Mean, RMS and median calculated from a histogram equal the mean, RMS and median of the samples placed at the bin centres; the quantile cut keeps all bins between the quantiles; the mean efficiency is passed over total and lies in [0, 1].',
 ['inputs'], 'all non-negative histograms of the stated number of bins and all bin positions (over the reals)',
 'Not tested by the runnable tests.',
 ['tools/analysis_utils.py'], [('get_mean_from_histogram, get_rms_from_histogram, get_median_from_histogram, hist_quantiles, get_mean_efficiency', 'tools/analysis_utils.py')])

prop('C25', 'Hit conversion and pixel masks preserve hits and only flag noisy pixels',
 'Converting hit files between index and local coordinates keeps every row, its order, event number, frame and charge and is reversible for hits on the sensor; a position is converted to the pixel that contains it. Pixel masks have the shape of the sensor and flag exactly the pixels whose occupancy exceeds the local median by more than the threshold times the normalised noise, repeated as requested, never a pixel without hits; clustering with masks leaves out exactly the hits on disabled pixels and single hits on noisy pixels.',
 ['inputs', 'configurations'], 'all hits on the sensor and all masks',
 'Needs data files that are not available.',
 ['hit_analysis.py'], [('convert_coordinates, mask_pixels', 'hit_analysis.py')])

prop('C26', 'Track angles are the geometric angles to the plane normal',
 'The angles calculated for a track are its angle to the plane normal and the signed angles of its projections onto the two given planes, independent of the length of the slope vector.',
 ['inputs'], 'all slope vectors with non-vanishing z component (over the reals)',
 'Not tested by the runnable tests.', ['result_analysis.py'], [('get_angles', 'result_analysis.py:get_angles')])

prop('C27', 'Kalman alignment moves only free parameters, correctly, keeping poses valid',
 'The Kalman alignment starts from the poses of the planes with the given errors for the selected parameters of the selected planes only, the first and last telescope plane fixed except for the rotation about the beam. Each track that has the required hits and passes the chi2 cut updates the parameters once, by the Kalman gain computed with the true derivatives of the measured position with respect to the corrections as they are applied to the pose; parameters without error never move, the covariance stays symmetric and never increases, an update rejected by the deviation cut and a plane without a hit change nothing. Combining corrections with a pose gives a valid rotation and adds the shifts; the annealing factor falls monotonically to one; the steps are stored in order and the alignment is saved.',
 ['inputs', 'configurations'], 'all tracks, poses, errors and cuts (over the reals)',
 'Needs data files that are not available.', ['dut_alignment.py'], [('_duts_alignment_kalman, _update_alignment_parameters, _calculate_initial_alignment, _calculate_alignment_parameters, _jacobian_alignment, _update_alignment, _calculate_annealing', 'dut_alignment.py')])

prop('C28', 'Simulated hits stay in their event and on the sensor',
 'Shuffling simulated hits only permutes hits within an event; charge sharing adds only hits on the sensor next to the seed, creates no more charge than was deposited; and every digitised hit has a column and row of the sensor it belongs to.',
 ['inputs', 'schedules'], 'all hit positions, multiplicities and all random shuffles',
 'Tests compare simulated distributions loosely and cannot run here.', ['tools/simulate_data.py'], [('shuffle_event_hits, _create_cs_hits, _add_charge_sharing_hits, _digitize_hits', 'tools/simulate_data.py')])

prop('C29', 'Data converters keep every hit of the right plane',
 'The converters of recorded data write every hit of a plane exactly once, in order and with unchanged event number, to the output of that plane, number columns and rows from one, and raise an error if event numbers decrease anywhere, including across chunk borders.',
 ['inputs', 'configurations'], 'all hit tables and chunk sizes', 'Not tested.',
 ['converter/pybar_fei4_converter.py', 'converter/pymosa_converter.py'], [('format_hit_table', 'converter/')])

prop('C30', 'The straight-line fit is the least-squares line',
 'The three-dimensional line fit returns a point and the unit direction, pointing along the beam, of the line with minimal sum of squared distances to the hits of the track; missing hits are ignored.',
 ['inputs'], 'all hit positions (over the reals)', 'A few random examples at most.',
 ['track_analysis.py'], [('line_fit_3d', 'track_analysis.py:line_fit_3d')])

prop('C31', 'Efficiency maps count every track of the region exactly once',
 'The efficiency of a sensor is the number of tracks with a hit inside the cut distance over the number of tracks, per bin and in total, each track of the selected area counted once in the bin of its intersection, independent of the chunk size.',
 ['inputs', 'configurations'], 'all tracks, hits, cut distances and chunk sizes', 'Needs data files that are not available.',
 ['result_analysis.py'], [('calculate_efficiency', 'result_analysis.py:calculate_efficiency')])

prop('C32', 'The track fit writes every track candidate that qualifies exactly once',
 'Fitting stores, for every requested plane, each track candidate with enough hits in the selected planes exactly once and in order, with its own event number and hits, the position and unit direction of its fitted line at that plane and the chi2 of its fit hits, leaves out all others (or keeps them without track parameters if so requested), and excludes a hit of the plane under test from its own fit when so requested; the chunk size has no influence, and a limited number of events is never exceeded.',
 ['inputs', 'configurations'], 'all hit flags, selections of planes and chunk sizes', 'Needs data files that are not available.',
 ['track_analysis.py'], [('fit_tracks, store_track_data, create_results_array', 'track_analysis.py')])

prop('C33', 'The Kalman track fit uses the right geometry, hits and errors',
 'The Kalman fit of tracks runs once over all planes of the telescope and the scattering planes in the order along the beam, uses exactly the hits of the selected planes with the squared hit error (or the given resolution) times the annealing factor as variance, starts from the reference line at the first plane, rejects planes without material, and returns for each telescope plane the position, slope and error of the smoothed track and the chi2, reduced chi2 and probability of the planes of the fit.',
 ['inputs', 'configurations'], 'all hits, errors, plane orders, scattering planes and annealing factors (over the reals)', 'Needs data files that are not available.',
 ['track_analysis.py', 'telescope/dut.py'], [('_fit_tracks_kalman_loop', 'track_analysis.py:_fit_tracks_kalman_loop'), ('ScatteringPlane', 'telescope/dut.py:ScatteringPlane')])

prop('C34', 'Alignment steps move planes along the least-squares solution only',
 'Each step of the residual-based alignment moves a selected plane along the least-squares solution of the linearised distances of its selected hits to their tracks, changes only the selected parameters, combines chunks by the number of their tracks, and leaves all other planes as they are. The beam alignment shifts every plane so that its distance from the fitted beam line is kept up to a common offset that puts the reference plane at zero, changes nothing else of the planes, and corrects the beam angles of the telescope by the angles of that line.',
 ['inputs', 'configurations'], 'all poses, tracks, hits, and selections of parameters (over the reals)', 'Needs data files that are not available.',
 ['dut_alignment.py'], [('calculate_transformation, align_telescope', 'dut_alignment.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
