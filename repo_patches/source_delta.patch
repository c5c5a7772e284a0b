From 409f9b410566e6d8bb5aa2fa20e8e923b49c056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 01/34] fix: do not access empty event number arrays in the C++
 event functions

---
 .../cpp/AnalysisFunctions.h                   | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/beam_telescope_analysis/cpp/AnalysisFunctions.h b/beam_telescope_analysis/cpp/AnalysisFunctions.h
index 55ef771..f60f80d 100644
--- a/beam_telescope_analysis/cpp/AnalysisFunctions.h
+++ b/beam_telescope_analysis/cpp/AnalysisFunctions.h
@@ -32,7 +32,7 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 				break;
 			}
 		}
-		if (rEventArrayTwo[tActualIndex] == tActualEventNumber) {
+		if (tActualIndex < rSizeArrayTwo && rEventArrayTwo[tActualIndex] == tActualEventNumber) {
 			rEventArrayIntersection[tActualResultIndex] = tActualEventNumber;
 			tActualResultIndex++;
 		}
@@ -43,19 +43,19 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 // Takes two event number arrays and returns a event number array with the maximum occurrence of each event number in array one and two
 unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, int64_t*& result, const unsigned int& rSizeArrayResult)
 {
-	int64_t tFirstActualEventNumber = rEventArrayOne[0];
-	int64_t tSecondActualEventNumber = rEventArrayTwo[0];
-	int64_t tFirstLastEventNumber = rEventArrayOne[rSizeArrayOne - 1];
-	int64_t tSecondLastEventNumber = rEventArrayTwo[rSizeArrayTwo - 1];
+	// empty arrays are finished from the beginning and must not be accessed
+	bool first_finished = (rSizeArrayOne == 0);
+	bool second_finished = (rSizeArrayTwo == 0);
+	int64_t tFirstActualEventNumber = first_finished ? 0 : rEventArrayOne[0];
+	int64_t tSecondActualEventNumber = second_finished ? 0 : rEventArrayTwo[0];
+	int64_t tFirstLastEventNumber = first_finished ? 0 : rEventArrayOne[rSizeArrayOne - 1];
+	int64_t tSecondLastEventNumber = second_finished ? 0 : rEventArrayTwo[rSizeArrayTwo - 1];
 	unsigned int i = 0;
 	unsigned int j = 0;
 	unsigned int tActualResultIndex = 0;
 	unsigned int tFirstActualOccurrence = 0;
 	unsigned int tSecondActualOccurrence = 0;
 
-	bool first_finished = false;
-	bool second_finished = false;
-
 	while (!(first_finished && second_finished)) {
 		if ((tFirstActualEventNumber <= tSecondActualEventNumber) || second_finished) {
 			unsigned int ii;
@@ -126,7 +126,6 @@ unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned i
 // Does the same as np.in1d but uses the fact that the arrays are sorted
 void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, uint8_t*& rSelection)
 {
-	rSelection[0] = true;
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
@@ -137,7 +136,7 @@ void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, in
 				break;
 			}
 		}
-		if (rEventArrayTwo[tActualIndex] == tActualEventNumber)
+		if (tActualIndex < rSizeArrayTwo && rEventArrayTwo[tActualIndex] == tActualEventNumber)
 			rSelection[i] = 1;
 		else
 			rSelection[i] = 0;
-- 
2.43.0


From af385703a27df7b9829a8fae75d07c624cc40aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 02/34] fix: reject histogram indices that do not fit into the
 index type instead of wrapping them around

---
 .../tools/analysis_utils.py                   | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 997388a..0dd4bf6 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -308,6 +308,14 @@ def get_events_in_both_arrays(events_one, events_two):
     return event_result[:count]
 
 
+def _to_histogram_index(indices):
+    """ Converts the indices to the data type needed by the C++ library. Indices that do not fit would wrap around and are rejected.
+    """
+    if indices.size != 0 and (np.min(indices) < np.iinfo(np.int32).min or np.max(indices) > np.iinfo(np.int32).max):
+        raise IndexError('The histogram indices are out of range.')
+    return np.ascontiguousarray(indices.astype(np.int32))  # change memory alignment for c++ library
+
+
 def hist_1d_index(x, shape):
     """
     Fast 1d histogram of 1D indices with C++ inner loop optimization.
@@ -328,8 +336,7 @@ def hist_1d_index(x, shape):
     if len(shape) != 1:
         raise NotImplementedError('The shape has to describe a 1-d histogram')
 
-    # change memory alignment for c++ library
-    x = np.ascontiguousarray(x.astype(np.int32))
+    x = _to_histogram_index(x)
     result = np.zeros(shape=shape, dtype=np.uint32)
     analysis_functions.hist_1d(x, shape[0], result)
     return result
@@ -358,9 +365,8 @@ def hist_2d_index(x, y, shape):
     if x.shape != y.shape:
         raise ValueError('The dimensions in x / y have to match')
 
-    # change memory alignment for c++ library
-    x = np.ascontiguousarray(x.astype(np.int32))
-    y = np.ascontiguousarray(y.astype(np.int32))
+    x = _to_histogram_index(x)
+    y = _to_histogram_index(y)
     result = np.zeros(shape=shape, dtype=np.uint32).ravel()  # ravel hist in c-style, 3D --> 1D
     analysis_functions.hist_2d(x, y, shape[0], shape[1], result)
     return np.reshape(result, shape)  # rebuilt 3D hist from 1D hist
@@ -390,10 +396,9 @@ def hist_3d_index(x, y, z, shape):
     if x.shape != y.shape or x.shape != z.shape:
         raise ValueError('The dimensions in x / y / z have to match')
 
-    # change memory alignment for c++ library
-    x = np.ascontiguousarray(x.astype(np.int32))
-    y = np.ascontiguousarray(y.astype(np.int32))
-    z = np.ascontiguousarray(z.astype(np.int32))
+    x = _to_histogram_index(x)
+    y = _to_histogram_index(y)
+    z = _to_histogram_index(z)
     result = np.zeros(shape=shape, dtype=np.uint16).ravel()  # ravel hist in c-style, 3D --> 1D
     analysis_functions.hist_3d(x, y, z, shape[0], shape[1], shape[2], result)
     return np.reshape(result, shape)  # rebuilt 3D hist from 1D hist
-- 
2.43.0


From 75ba47580d6f0164b3374259a6b0d3d91502cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 03/34] fix: raise an error for a missing start event also if
 it is not in the first chunk

---
 beam_telescope_analysis/tools/analysis_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 0dd4bf6..9f99793 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -553,18 +553,21 @@ def data_aligned_at_events(table, start_event_number=None, stop_event_number=Non
                         if fail_on_missing_events:
                             raise ValueError('The start event %d is missing. Change start_event_number.' % start_event_number)
                         chunk_start_index = np.searchsorted(array_chunk["event_number"], start_event_number + 1, side='left')
-                    elif fail_on_missing_events and first_event_in_chunk > start_event_number and start_index == current_start_index:
+                    elif fail_on_missing_events and first_event_in_chunk > start_event_number:
                         raise ValueError('The start event %d is missing. Change start_event_number.' % start_event_number)
                     elif first_event_aligned and first_event_in_chunk == start_event_number and start_index == current_start_index:
                         chunk_start_index = 0
                     else:
                         chunk_start_index = np.searchsorted(array_chunk["event_number"], start_event_number, side='left')
-                        if fail_on_missing_events and array_chunk["event_number"][chunk_start_index] != start_event_number and start_index == current_start_index:
+                        if fail_on_missing_events and array_chunk["event_number"][chunk_start_index] != start_event_number:
                             raise ValueError('The start event %d is missing. Change start_event_number.' % start_event_number)
 #                     if fail_on_missing_events and ((start_index == current_start_index and chunk_start_index == 0 and start_index != 0 and not first_event_aligned) or array_chunk["event_number"][chunk_start_index] != start_event_number):
 #                         raise ValueError('The start event %d is missing. Change start_event_number.' % start_event_number)
                     current_start_index = current_start_index + chunk_start_index  # calculate index for next loop
                     break
+            else:  # all events are before the start event
+                if fail_on_missing_events:
+                    raise ValueError('The start event %d is missing. Change start_event_number.' % start_event_number)
         elif not first_event_aligned and start_index != 0:
             while current_start_index < stop_index:
                 current_stop_index = min(current_start_index + chunk_size, stop_index)
-- 
2.43.0


From ab09ce4530ed949d7fba70b5b9c37ebb0bc8b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 04/34] fix: do not drop the last event before the stop event
 when reading with speedup

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 9f99793..aad2696 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -600,7 +600,7 @@ def data_aligned_at_events(table, start_event_number=None, stop_event_number=Non
             else:
                 if last_event_in_chunk >= stop_event_number:
                     chunk_stop_index = np.searchsorted(array_chunk["event_number"], stop_event_number, side='left')
-                elif current_stop_index == table_max_rows:  # this will also add the last event of the table
+                elif current_stop_index == table_max_rows or (stop_index_known and current_stop_index == stop_index):  # this will also add the last event of the table or the last event before the stop event
                     chunk_stop_index = array_chunk.shape[0]
                 else:
                     chunk_stop_index = np.searchsorted(array_chunk["event_number"], last_event_in_chunk, side='left')
-- 
2.43.0


From 226f3002a0c658f97e18ebf315197d42680b11ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 05/34] fix: merge also the clusters of events after the last
 event of the first DUT

---
 beam_telescope_analysis/hit_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 6f95c9e..08fb2de 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1614,12 +1614,14 @@ def merge_cluster_data(telescope_configuration, input_cluster_files, output_merg
 
             for actual_cluster_dut_0, start_indices_data_loop[0] in analysis_utils.data_aligned_at_events(in_file_h5.root.Clusters, start_index=start_indices_data_loop[0], start_event_number=actual_start_event_number, stop_event_number=None, chunk_size=chunk_size):  # Loop over the cluster of DUT0 in chunks
                 actual_event_numbers = actual_cluster_dut_0['event_number']
+                # After the last event of DUT0 the other DUTs can have events, merge them with the last chunk of DUT0
+                stop_event_number = None if start_indices_data_loop[0] == in_file_h5.root.Clusters.nrows else actual_event_numbers[-1] + 1
 
                 # First loop: calculate the minimum event number indices needed to merge all cluster from all files to this event number index
                 common_event_numbers = actual_event_numbers
                 for dut_index, cluster_file in enumerate(input_cluster_files[1:], start=1):  # Loop over the other cluster files
                     with tb.open_file(cluster_file, mode='r') as actual_in_file_h5:  # Open DUT0 cluster file
-                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_event_numbers[-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
+                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=stop_event_number, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
                             common_event_numbers = analysis_utils.get_max_events_in_both_arrays(common_event_numbers, actual_cluster['event_number'])
                 # array with merged DUT data
                 merged_cluster_array = np.zeros(shape=(common_event_numbers.shape[0],), dtype=description)
-- 
2.43.0


From b5c1017e4e3e8d979bbb77a81cf41bd5fca156e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 06/34] fix: set the intersection of a line parallel to the
 plane to nan instead of raising an error without an exception

---
 .../tools/geometry_utils.py                   | 1035 ++++++++---------
 1 file changed, 517 insertions(+), 518 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index b2f4ce4..1aebce3 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -1,518 +1,517 @@
-''' Helper functions for geometrical operations.
-'''
-from __future__ import division
-
-import logging
-
-import numpy as np
-
-
-def skew(v):
-    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
-    matr[::9] = v.flatten()[::3]
-    matr[4::9] = v.flatten()[1::3]
-    matr[8::9] = v.flatten()[2::3]
-    matr = matr.reshape(np.r_[v.shape, 3])
-
-    if len(v.shape) == 1:
-        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
-        return matr_skv - matr_skv.T
-    else:
-        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
-        return matr_skv - matr_skv.transpose((0, 2, 1))
-
-
-def get_plane_normal(direction_vector_1, direction_vector_2):
-    ''' Normal vector of a plane.
-
-    Plane is define by two non parallel direction vectors within the plane.
-
-    Parameters
-    ----------
-    direction_vector_1 : array
-        Array with x, y and z.
-    direction_vector_2 : array
-        Array with x, y and z.
-
-    Returns
-    -------
-    Array with x, y and z.
-    '''
-    return np.cross(direction_vector_1, direction_vector_2)
-
-
-def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
-    ''' Calculates the intersection of lines with a DUT.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    translation_x, translation_y, translation_z : float
-        The coordianates of the DUT (in um).
-    rotation_alpha, rotation_beta, rotation_gamma : float
-        The rotation angles of the DUT (in radians).
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    dut_position = np.array([
-        translation_x,
-        translation_y,
-        translation_z],
-        dtype=np.float64)
-    dut_rotation_matrix = rotation_matrix(
-        alpha=rotation_alpha,
-        beta=rotation_beta,
-        gamma=rotation_gamma)
-    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
-    dut_normal = basis_global[2]
-    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
-    if dut_normal[2] < 0:
-        dut_normal = -dut_normal
-    return get_line_intersections_with_plane(
-        line_origins=line_origins,
-        line_directions=line_directions,
-        position_plane=dut_position,
-        normal_plane=dut_normal)
-
-
-def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
-    ''' Calculates the intersection of n lines with one plane.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    position_plane : array
-        A array (x, y and z) to the plane.
-    normal_plane : array
-        The normal vector (x, y and z) of the plane.
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    # Calculate offsets and extend in missing dimension
-    offsets = position_plane[np.newaxis, :] - line_origins
-
-    # Precalculate to be able to avoid division by 0
-    # (line is parallel to the plane or in the plane)
-    norm_dot_off = np.dot(normal_plane, offsets.T)
-    # Dot product is transformed to be at least 1D for special n = 1
-    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
-                                        line_directions.T))
-
-    # Initialize result to nan
-    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
-
-    # Warn if some intersection cannot be calculated
-    if np.any(norm_dot_dir == 0):
-        raise
-        logging.warning('Some line plane intersection could not be calculated')
-
-    # Calculate t scalar for each line simultaniously, avoid division by 0
-    sel = norm_dot_dir != 0
-    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
-
-    # Calculate the intersections for each line with the plane
-    intersections = line_origins + line_directions * t[:, np.newaxis]
-
-    return intersections
-
-
-def cartesian_to_spherical(x, y, z):
-    ''' Does a transformation from cartesian to spherical coordinates.
-
-    Convention: r = 0 --> phi = theta = 0
-
-    Parameters
-    ----------
-    x, y, z : float
-        Position in cartesian space.
-
-    Returns
-    -------
-    Spherical coordinates phi, theta and r.
-    '''
-    r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
-    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
-    # Avoid division by zero
-    # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
-    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
-    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
-    return phi, theta, r
-
-
-def spherical_to_cartesian(phi, theta, r):
-    ''' Transformation from spherical to cartesian coordinates.
-
-    Including error checks.
-
-    Parameters
-    ----------
-    phi, theta, r : float
-        Position in spherical space.
-
-    Returns
-    -------
-    Cartesian coordinates x, y and z.
-    '''
-    if np.any(r < 0):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
-    if np.any(theta < 0) or np.any(theta >= np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
-    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
-    x = r * np.cos(phi) * np.sin(theta)
-    y = r * np.sin(phi) * np.sin(theta)
-    z = r * np.cos(theta)
-
-    return x, y, z
-
-
-def rotation_matrix_x(alpha):
-    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[1, 0, 0],
-                     [0, np.cos(alpha), -np.sin(alpha)],
-                     [0, np.sin(alpha), np.cos(alpha)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_y(beta):
-    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    beta : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(beta), 0, np.sin(beta)],
-                     [0, 1, 0],
-                     [-np.sin(beta), 0, np.cos(beta)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_z(gamma):
-    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    gamma : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
-                     [np.sin(gamma), np.cos(gamma), 0],
-                     [0, 0, 1]],
-                    dtype=np.float64)
-
-
-def rotation_matrix(alpha, beta, gamma):
-    ''' Calculates the rotation matrix for the rotation around the three cartesian
-    axis x, y, z in a right-handed coordinate system.
-
-    Note
-    ----
-    The matrix represents a rotation around the x axis, then the y axis,
-    and then the z axis in a right-handed coordinate system.
-
-    Remember:
-        - Transform to the locale coordinate system before applying rotations
-        - Rotations are associative but not commutative
-
-    Usage
-    -----
-        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
-        coordinate system can be done by:
-            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
-
-
-def euler_angles(R):
-    ''' Calculates the Euler angles from rotation matrix R.
-
-    Note
-    ----
-    In a right-handed system. The rotation is done around x then y then z.
-
-    Note:
-        - Transform to the local coordinate system before applying rotations
-        - Rotations are associative but not commutative
-        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
-          In this case, gamma is set to zero.
-
-    Parameters
-    ----------
-    R : array
-        Rotation matrix.
-
-    Returns
-    -------
-    Returns Euler angles alpha, beta and gamma.
-    '''
-    def is_rotation_matrix(R):
-        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
-        return np.isclose(0.0, norm)
-
-    if not is_rotation_matrix(R):
-        raise ValueError("%s is not a rotation matrix" % str(R))
-
-    if R[2, 0] == -1:
-        gamma = 0.0  # gimbal lock
-        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
-        beta = np.pi / 2
-    elif R[2, 0] == 1:
-        gamma = 0.0  # gimbal lock
-        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
-        beta = -np.pi / 2
-    else:
-        beta_1 = -np.arcsin(R[2, 0])
-        # for very small values use 0.0 and remove minus sign from 0.0
-        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
-            beta_1 = 0.0
-        beta_2 = np.pi - beta_1
-        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
-        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
-            alpha_1 = 0.0
-        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
-        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
-            alpha_2 = 0.0
-        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
-        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
-            gamma_1 = 0.0
-        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
-        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
-            gamma_2 = 0.0
-        # # chose the angles with smaller values
-        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
-        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
-        # else:
-        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
-    return alpha_1, beta_1, gamma_1
-
-
-def translation_matrix(x, y, z):
-    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
-
-    Note
-    ----
-    Remember: Translations are associative and commutative
-
-    Usage
-    -----
-        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
-          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
-    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
-
-    return translation_matrix.T
-
-
-def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a translation and rotation.
-
-    Translation is T=(-x, -y, -z) to the local coordinate system followed
-    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
-
-    Note
-    ----
-        - This function is the inverse of
-          local_to_global_transformation_matrix()
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations are not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
-
-    # Get translation matrix T
-    T = translation_matrix(x=-x, y=-y, z=-z)
-
-    return np.dot(R, T)
-
-
-def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a inverse translation and rotation.
-
-    Inverse rotation in the local coordinate system followed by an inverse
-    translation by x, y, z to the global coordinate system.
-
-    Note
-    ----
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations do not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend inverse rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
-
-    # Get inverse translation matrix T
-    T = translation_matrix(x=x, y=y, z=z)
-
-    return np.dot(T, R)
-
-
-def apply_transformation_matrix(x, y, z, transformation_matrix):
-    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of y coordinates.
-    z : array
-        Array of z coordinates.
-
-    Returns
-    -------
-    Array with transformed coordinates.
-    '''
-    # Add extra 4th dimension
-    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
-
-    # Transform and delete extra dimension
-    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-
-
-def apply_rotation_matrix(x, y, z, rotation_matrix):
-    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of x coordinates.
-    z : array
-        Array of x coordinates.
-
-    Returns
-    -------
-    Array with rotated coordinates.
-    '''
-    pos = np.column_stack((x, y, z)).T
-    pos_transformed = np.dot(rotation_matrix, pos).T
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+''' Helper functions for geometrical operations.
+'''
+from __future__ import division
+
+import logging
+
+import numpy as np
+
+
+def skew(v):
+    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
+    matr[::9] = v.flatten()[::3]
+    matr[4::9] = v.flatten()[1::3]
+    matr[8::9] = v.flatten()[2::3]
+    matr = matr.reshape(np.r_[v.shape, 3])
+
+    if len(v.shape) == 1:
+        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
+        return matr_skv - matr_skv.T
+    else:
+        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
+        return matr_skv - matr_skv.transpose((0, 2, 1))
+
+
+def get_plane_normal(direction_vector_1, direction_vector_2):
+    ''' Normal vector of a plane.
+
+    Plane is define by two non parallel direction vectors within the plane.
+
+    Parameters
+    ----------
+    direction_vector_1 : array
+        Array with x, y and z.
+    direction_vector_2 : array
+        Array with x, y and z.
+
+    Returns
+    -------
+    Array with x, y and z.
+    '''
+    return np.cross(direction_vector_1, direction_vector_2)
+
+
+def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
+    ''' Calculates the intersection of lines with a DUT.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    translation_x, translation_y, translation_z : float
+        The coordianates of the DUT (in um).
+    rotation_alpha, rotation_beta, rotation_gamma : float
+        The rotation angles of the DUT (in radians).
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    dut_position = np.array([
+        translation_x,
+        translation_y,
+        translation_z],
+        dtype=np.float64)
+    dut_rotation_matrix = rotation_matrix(
+        alpha=rotation_alpha,
+        beta=rotation_beta,
+        gamma=rotation_gamma)
+    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
+    dut_normal = basis_global[2]
+    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
+    if dut_normal[2] < 0:
+        dut_normal = -dut_normal
+    return get_line_intersections_with_plane(
+        line_origins=line_origins,
+        line_directions=line_directions,
+        position_plane=dut_position,
+        normal_plane=dut_normal)
+
+
+def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
+    ''' Calculates the intersection of n lines with one plane.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    position_plane : array
+        A array (x, y and z) to the plane.
+    normal_plane : array
+        The normal vector (x, y and z) of the plane.
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    # Calculate offsets and extend in missing dimension
+    offsets = position_plane[np.newaxis, :] - line_origins
+
+    # Precalculate to be able to avoid division by 0
+    # (line is parallel to the plane or in the plane)
+    norm_dot_off = np.dot(normal_plane, offsets.T)
+    # Dot product is transformed to be at least 1D for special n = 1
+    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
+                                        line_directions.T))
+
+    # Initialize result to nan
+    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
+
+    # Warn if some intersection cannot be calculated
+    if np.any(norm_dot_dir == 0):
+        logging.warning('Some line plane intersection could not be calculated')
+
+    # Calculate t scalar for each line simultaniously, avoid division by 0
+    sel = norm_dot_dir != 0
+    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
+
+    # Calculate the intersections for each line with the plane
+    intersections = line_origins + line_directions * t[:, np.newaxis]
+
+    return intersections
+
+
+def cartesian_to_spherical(x, y, z):
+    ''' Does a transformation from cartesian to spherical coordinates.
+
+    Convention: r = 0 --> phi = theta = 0
+
+    Parameters
+    ----------
+    x, y, z : float
+        Position in cartesian space.
+
+    Returns
+    -------
+    Spherical coordinates phi, theta and r.
+    '''
+    r = np.sqrt(x * x + y * y + z * z)
+    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
+    # Avoid division by zero
+    # https://en.wikipedia.org/wiki/Atan2
+    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
+    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
+    return phi, theta, r
+
+
+def spherical_to_cartesian(phi, theta, r):
+    ''' Transformation from spherical to cartesian coordinates.
+
+    Including error checks.
+
+    Parameters
+    ----------
+    phi, theta, r : float
+        Position in spherical space.
+
+    Returns
+    -------
+    Cartesian coordinates x, y and z.
+    '''
+    if np.any(r < 0):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
+    if np.any(theta < 0) or np.any(theta >= np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
+    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
+    x = r * np.cos(phi) * np.sin(theta)
+    y = r * np.sin(phi) * np.sin(theta)
+    z = r * np.cos(theta)
+
+    return x, y, z
+
+
+def rotation_matrix_x(alpha):
+    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[1, 0, 0],
+                     [0, np.cos(alpha), -np.sin(alpha)],
+                     [0, np.sin(alpha), np.cos(alpha)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_y(beta):
+    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    beta : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(beta), 0, np.sin(beta)],
+                     [0, 1, 0],
+                     [-np.sin(beta), 0, np.cos(beta)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_z(gamma):
+    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    gamma : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
+                     [np.sin(gamma), np.cos(gamma), 0],
+                     [0, 0, 1]],
+                    dtype=np.float64)
+
+
+def rotation_matrix(alpha, beta, gamma):
+    ''' Calculates the rotation matrix for the rotation around the three cartesian
+    axis x, y, z in a right-handed coordinate system.
+
+    Note
+    ----
+    The matrix represents a rotation around the x axis, then the y axis,
+    and then the z axis in a right-handed coordinate system.
+
+    Remember:
+        - Transform to the locale coordinate system before applying rotations
+        - Rotations are associative but not commutative
+
+    Usage
+    -----
+        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
+        coordinate system can be done by:
+            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
+
+
+def euler_angles(R):
+    ''' Calculates the Euler angles from rotation matrix R.
+
+    Note
+    ----
+    In a right-handed system. The rotation is done around x then y then z.
+
+    Note:
+        - Transform to the local coordinate system before applying rotations
+        - Rotations are associative but not commutative
+        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
+          In this case, gamma is set to zero.
+
+    Parameters
+    ----------
+    R : array
+        Rotation matrix.
+
+    Returns
+    -------
+    Returns Euler angles alpha, beta and gamma.
+    '''
+    def is_rotation_matrix(R):
+        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
+        return np.isclose(0.0, norm)
+
+    if not is_rotation_matrix(R):
+        raise ValueError("%s is not a rotation matrix" % str(R))
+
+    if R[2, 0] == -1:
+        gamma = 0.0  # gimbal lock
+        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
+        beta = np.pi / 2
+    elif R[2, 0] == 1:
+        gamma = 0.0  # gimbal lock
+        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
+        beta = -np.pi / 2
+    else:
+        beta_1 = -np.arcsin(R[2, 0])
+        # for very small values use 0.0 and remove minus sign from 0.0
+        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
+            beta_1 = 0.0
+        beta_2 = np.pi - beta_1
+        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
+        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
+            alpha_1 = 0.0
+        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
+        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
+            alpha_2 = 0.0
+        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
+        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
+            gamma_1 = 0.0
+        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
+        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
+            gamma_2 = 0.0
+        # # chose the angles with smaller values
+        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
+        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
+        # else:
+        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
+    return alpha_1, beta_1, gamma_1
+
+
+def translation_matrix(x, y, z):
+    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
+
+    Note
+    ----
+    Remember: Translations are associative and commutative
+
+    Usage
+    -----
+        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
+          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
+    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
+
+    return translation_matrix.T
+
+
+def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a translation and rotation.
+
+    Translation is T=(-x, -y, -z) to the local coordinate system followed
+    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
+
+    Note
+    ----
+        - This function is the inverse of
+          local_to_global_transformation_matrix()
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations are not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
+
+    # Get translation matrix T
+    T = translation_matrix(x=-x, y=-y, z=-z)
+
+    return np.dot(R, T)
+
+
+def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a inverse translation and rotation.
+
+    Inverse rotation in the local coordinate system followed by an inverse
+    translation by x, y, z to the global coordinate system.
+
+    Note
+    ----
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations do not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend inverse rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
+
+    # Get inverse translation matrix T
+    T = translation_matrix(x=x, y=y, z=z)
+
+    return np.dot(T, R)
+
+
+def apply_transformation_matrix(x, y, z, transformation_matrix):
+    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of y coordinates.
+    z : array
+        Array of z coordinates.
+
+    Returns
+    -------
+    Array with transformed coordinates.
+    '''
+    # Add extra 4th dimension
+    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
+
+    # Transform and delete extra dimension
+    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+
+
+def apply_rotation_matrix(x, y, z, rotation_matrix):
+    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of x coordinates.
+    z : array
+        Array of x coordinates.
+
+    Returns
+    -------
+    Array with rotated coordinates.
+    '''
+    pos = np.column_stack((x, y, z)).T
+    pos_transformed = np.dot(rotation_matrix, pos).T
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-- 
2.43.0


From ee476acd6240ff96e9393111cb0f3caf620d779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 07/34] fix: return the Euler angles in case of gimbal lock

---
 beam_telescope_analysis/tools/geometry_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index 1aebce3..9293654 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -324,13 +324,13 @@ def euler_angles(R):
         raise ValueError("%s is not a rotation matrix" % str(R))
 
     if R[2, 0] == -1:
-        gamma = 0.0  # gimbal lock
-        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
-        beta = np.pi / 2
+        gamma_1 = 0.0  # gimbal lock
+        alpha_1 = gamma_1 + np.arctan2(R[0, 1], R[0, 2])
+        beta_1 = np.pi / 2
     elif R[2, 0] == 1:
-        gamma = 0.0  # gimbal lock
-        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
-        beta = -np.pi / 2
+        gamma_1 = 0.0  # gimbal lock
+        alpha_1 = -gamma_1 + np.arctan2(-R[0, 1], -R[0, 2])
+        beta_1 = -np.pi / 2
     else:
         beta_1 = -np.arcsin(R[2, 0])
         # for very small values use 0.0 and remove minus sign from 0.0
-- 
2.43.0


From d01db58967111b284b5bc78fef6a6ced5626a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 08/34] fix: decode Morton codes of numbers above 16 bit

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index aad2696..6f93aa0 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1019,7 +1019,7 @@ def morton_1(x):
     x = (x | (x >> 2)) & 0x0F0F0F0F0F0F0F0F
     x = (x | (x >> 4)) & 0x00FF00FF00FF00FF
     x = (x | (x >> 8)) & 0x0000FFFF0000FFFF
-    x = (x | (x >> 16)) & 0xFFFFFFFFFFFFFFFF  # TODO: 0x00000000FFFFFFFF
+    x = (x | (x >> 16)) & 0x00000000FFFFFFFF
     return x
 
 
-- 
2.43.0


From 81f27b4c2c4f24a9549c61028f3705b0be7a1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 09/34] fix: store the seed position of clusters as floating
 point number

---
 beam_telescope_analysis/hit_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 08fb2de..7ee070a 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -993,8 +993,8 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
             ('n_hits', '<u4'),
             ('charge', '<f4'),
             ('frame', '<u2'),
-            ('seed_x', '<u2'),
-            ('seed_y', '<u2'),
+            ('seed_x', '<f8'),
+            ('seed_y', '<f8'),
             ('mean_x', '<f8'),
             ('mean_y', '<f8')])
     else:
-- 
2.43.0


From 9ac9d3c77786aabbeec96025928017ddb855c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 10/34] fix: find tracks with an empty list of DUTs for the
 extrapolation

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 6fd1a04..f844d97 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -9,7 +9,7 @@ from collections.abc import Iterable
 
 import tables as tb
 import numpy as np
-from numba import njit
+from numba import njit, types
 from numba.typed import List
 from scipy.stats import gaussian_kde
 from scipy.stats import chi2
@@ -75,7 +75,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
         raise ValueError("Invalid value for select_extrapolation_duts")
 
     # Create typed list for numba (see http://numba.pydata.org/numba-doc/latest/reference/deprecation.html#deprecation-of-reflection-for-list-and-set-types)
-    typed_select_extrapolation_duts = List()
+    typed_select_extrapolation_duts = List.empty_list(types.int64)
     [typed_select_extrapolation_duts.append(x) for x in select_extrapolation_duts]
     select_extrapolation_duts = typed_select_extrapolation_duts
 
-- 
2.43.0


From 8e24e649b964bfbed17a7a760c4f160542389e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 11/34] fix: do not rearrange the columns of DUT 10 and above
 together with those of DUT 1

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index f844d97..be0ef10 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -287,7 +287,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                 # copy the columns to the result array
                 for dut_index in range(n_duts):
                     for column_name in tracklets_data_chunk.dtype.names:
-                        if 'dut_%d' % dut_index in column_name:
+                        if column_name.endswith('_dut_%d' % dut_index):
                             tracklets_data_chunk[column_name] = tracklets_data_chunk[column_name][indices[:, dut_index]]
                 # calculate new hit flags
                 for dut_index in range(n_duts):
-- 
2.43.0


From 4accfc2c04f47cb0bc4eda142a74687dc23bd7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 12/34] fix: expose the table columns to the query string of
 select_tracks

---
 beam_telescope_analysis/tools/data_selection.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 8305787..6f55ff7 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -2,7 +2,6 @@
 from __future__ import division
 
 import logging
-import re
 import os
 from collections.abc import Iterable
 
@@ -479,7 +478,6 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
 
 
 def table_where(arr, query_str):
-    for variable in set(re.findall(r'(\d*[a-zA-Z_]+\d*)', query_str)):
-        exec(variable + ' = arr[\'' + variable + '\']')  # expose variables; not a copy, this is just a reference
+    variables = {name: arr[name] for name in arr.dtype.names}  # expose variables; not a copy, this is just a reference
 
-    return arr[ne.evaluate(query_str, casting="safe")]
+    return arr[ne.evaluate(query_str, local_dict=variables, casting="safe")]
-- 
2.43.0


From 884b61aad359e17a46babbb170ca7b3b040f1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 13/34] fix: do not divide by zero in the summary of
 select_tracks if a selection is not used or selects no track

---
 beam_telescope_analysis/tools/data_selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 6f55ff7..fd7e4e4 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -472,7 +472,10 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                     # total_n_tracks_last = total_n_tracks
                     last_index_chunk = index_chunk
                 pbar.close()
-                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (100.0 * n_tracks_query / total_n_tracks, 100.0 * n_tracks_hit_mask / total_n_tracks, 100.0 * n_tracks_quality_mask / n_tracks_hit_mask, 100.0 * n_tracks_iso_track_mask / n_tracks_quality_mask, 100.0 * n_tracks_iso_hit_mask / n_tracks_iso_track_mask, 100.0 * n_tracks_query / n_tracks_iso_hit_mask))
+                def percentage(n, total):
+                    return 100.0 * n / total if total else 0.0
+
+                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (percentage(n_tracks_query, total_n_tracks), percentage(n_tracks_hit_mask, total_n_tracks), percentage(n_tracks_quality_mask, n_tracks_hit_mask), percentage(n_tracks_iso_track_mask, n_tracks_quality_mask), percentage(n_tracks_iso_hit_mask, n_tracks_iso_track_mask), percentage(n_tracks_query, n_tracks_iso_hit_mask)))
 
     return output_tracks_file
 
-- 
2.43.0


From cab210f8ff31cb7b99cbbe3bfb33b89eb08c6374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 14/34] fix: combine also files with an empty table

---
 beam_telescope_analysis/tools/data_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index fd7e4e4..9b9d2e5 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -99,7 +99,8 @@ def combine_files(input_files, output_file=None, names=None, event_number_offset
                         out_tables[table.name].append(data_chunk)
                         out_tables[table.name].flush()
                     if last_event_numbers[table.name] is not None:
-                        last_event_numbers[table.name] = data_chunk[-1]['event_number']
+                        if table.nrows:
+                            last_event_numbers[table.name] = data_chunk[-1]['event_number']
                         applied_event_number_offsets[table.name].append(event_number_offset)
 
     return output_file, applied_event_number_offsets
-- 
2.43.0


From f7bb55567c8c8ec1e23b8abc3ee9ff2c666df2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 15/34] fix: do not divide by zero if the requested number of
 events is stored before the last chunk

---
 beam_telescope_analysis/tools/data_selection.py | 4 ++++
 beam_telescope_analysis/track_analysis.py       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 9b9d2e5..637bcfb 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -159,6 +159,8 @@ def reduce_events(input_file, max_events, output_file=None, chunk_size=1000000):
                         select_n_events = max_events - total_n_events_stored
                     elif total_n_events_stored == 0:  # first chunk
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
+                    elif total_n_events_stored_last == max_events:  # all events already stored
+                        select_n_events = 0
                     else:
                         # calculate correction of number of selected events
                         correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
@@ -441,6 +443,8 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                             select_n_events = max_events - total_n_events_stored
                         elif total_n_events_stored == 0:  # first chunk
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
+                        elif total_n_events_stored_last == max_events:  # all events already stored
+                            select_n_events = 0
                         else:
                             # calculate correction of number of selected events
                             correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index be0ef10..a3a0b67 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -213,6 +213,8 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                         select_n_events = max_events - total_n_events_stored
                     elif total_n_events_stored == 0:  # first chunk
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
+                    elif total_n_events_stored_last == max_events:  # all events already stored
+                        select_n_events = 0
                     else:
                         # calculate correction of number of selected events
                         correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
@@ -895,6 +897,8 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
                             select_n_events = max_events - total_n_events_stored
                         elif total_n_events_stored == 0:  # first chunk
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
+                        elif total_n_events_stored_last == max_events:  # all events already stored
+                            select_n_events = 0
                         else:
                             # calculate correction of number of selected events
                             correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-- 
2.43.0


From 45e302ba7cc2d83610301de0e03a426d2b2d3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 16/34] fix: event range selection for event number 0 and open
 limits

---
 .../tools/analysis_utils.py                   | 36 +++++--------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 6f93aa0..978c2c2 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -7,7 +7,6 @@ import os
 import errno
 
 import numpy as np
-import numexpr as ne
 import numba
 from numba import njit
 from scipy.interpolate import splrep, sproot
@@ -421,36 +420,17 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
         hit array with the hits in the event range.
     '''
     event_number = array['event_number']
-    if not np.any(event_number):  # No events in selection
-        return np.array([])
     if assume_sorted:
-        data_event_start = event_number[0]
-        data_event_stop = event_number[-1]
-        if (event_start is not None and event_stop is not None) and (data_event_stop < event_start or data_event_start > event_stop or event_start == event_stop):  # special case, no intersection at all
-            return array[0:0]
-
-        # get min/max indices with values that are also in the other array
-        if event_start is None:
-            min_index_data = 0
-        else:
-            if event_number[0] > event_start:
-                min_index_data = 0
-            else:
-                min_index_data = np.argmin(event_number < event_start)
-
-        if event_stop is None:
-            max_index_data = event_number.shape[0]
-        else:
-            if event_number[-1] < event_stop:
-                max_index_data = event_number.shape[0]
-            else:
-                max_index_data = np.argmax(event_number >= event_stop)
-
-        if min_index_data < 0:
-            min_index_data = 0
+        min_index_data = 0 if event_start is None else np.searchsorted(event_number, event_start)
+        max_index_data = event_number.shape[0] if event_stop is None else np.searchsorted(event_number, event_stop)
         return array[min_index_data:max_index_data]
     else:
-        return array[ne.evaluate('(event_number >= event_start) & (event_number < event_stop)')]
+        selection = np.ones(event_number.shape[0], dtype=bool)
+        if event_start is not None:
+            selection &= event_number >= event_start
+        if event_stop is not None:
+            selection &= event_number < event_stop
+        return array[selection]
 
 
 def data_aligned_at_events(table, start_event_number=None, stop_event_number=None, start_index=None, stop_index=None, chunk_size=1000000, try_speedup=False, first_event_aligned=True, fail_on_missing_events=True):
-- 
2.43.0


From 778152a03d58cf8f196323462a342b7092e2b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 17/34] fix: indices of an uncut histogram are inside the
 histogram

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 978c2c2..fee8b1a 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -231,7 +231,7 @@ def hist_quantiles(hist, prob=(0.05, 0.95), return_indices=False, copy=True):
         hp = np.where(unormcdf > prob[1])[0][0]
         lp = np.where(unormcdf >= prob[0])[0][0]
     except IndexError:
-        hp_index = hist_t.shape[0]
+        hp_index = hist_t.shape[0] - 1
         lp_index = 0
     else:
         hp_index = indices[hp]
-- 
2.43.0


From 94b5dd367d56061724aab622a55544640a06186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 18/34] fix: Kalman smoother: store reference states for the
 plane they belong to

The updated track seed was taken from plane 0 and the extrapolated reference
states were stored by the position along the beam instead of the plane index,
which gives wrong tracks if the planes are not ordered along the beam.
---
 beam_telescope_analysis/tools/kalman.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index 6aadc87..e2d91e9 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -830,7 +830,8 @@ class KalmanFilter(object):
             initial_state_covariance=initial_state_covariance)
 
         # Improve track_seed
-        track_seed = reference_states[:, 0, :] + filtered_states_b[:, 0, :]
+        first_dut_index = z_sorted_dut_indices[0]
+        track_seed = reference_states[:, first_dut_index, :] + filtered_states_b[:, first_dut_index, :]
 
         # Extrapolate track_seed and store as reference state
         for i, dut_index in enumerate(z_sorted_dut_indices):
@@ -842,7 +843,7 @@ class KalmanFilter(object):
                     beta=seed_dut.rotation_beta,
                     gamma=seed_dut.rotation_gamma)
                 seed_dut_position = np.array([seed_dut.translation_x, seed_dut.translation_y, seed_dut.translation_z])
-                reference_states[:, i, :] = track_seed
+                reference_states[:, dut_index, :] = track_seed
 
             else:
                 rotation_matrix_actual_dut = geometry_utils.rotation_matrix(
@@ -851,7 +852,7 @@ class KalmanFilter(object):
                     gamma=actual_dut.rotation_gamma)
                 actual_dut_position = np.array([actual_dut.translation_x, actual_dut.translation_y, actual_dut.translation_z])
                 # Extrapolate track seed
-                reference_states[:, i, :] = _extrapolate_state(
+                reference_states[:, dut_index, :] = _extrapolate_state(
                     track_state=track_seed,
                     dut_position=np.tile(seed_dut_position, reps=(track_seed.shape[0], 1)),
                     target_dut_position=np.tile(actual_dut_position, reps=(track_seed.shape[0], 1)),
-- 
2.43.0


From 10f9cf9755b57a591f22042ea659b772949c1b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 19/34] fix: open_configuation accepts dictionaries and files
 with Python 3

---
 beam_telescope_analysis/telescope/telescope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/telescope/telescope.py b/beam_telescope_analysis/telescope/telescope.py
index 5e45ddf..b71a936 100644
--- a/beam_telescope_analysis/telescope/telescope.py
+++ b/beam_telescope_analysis/telescope/telescope.py
@@ -1,5 +1,6 @@
 from __future__ import division
 
+import io
 import logging
 import os
 from collections import OrderedDict
@@ -29,7 +30,7 @@ def open_configuation(configuation):
                 configuration_dict.update(safe_load(f))
         else:  # YAML string
             configuration_dict.update(safe_load(configuation))
-    elif isinstance(configuation, file):  # parse the first YAML document in a stream
+    elif isinstance(configuation, io.IOBase):  # parse the first YAML document in a stream
         logging.info('Loading configuration from file %s', os.path.abspath(configuation.name))
         configuration_dict.update(safe_load(configuation))
     elif isinstance(configuation, (dict, OrderedDict)):  # conf is already a dict
-- 
2.43.0


From 7479a834e900ad723c73c0ca87dd813d643f12f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 20/34] fix: apply_alignment skips the group with the arguments
 of previous steps

---
 beam_telescope_analysis/dut_alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index a6e552c..ac9c6c9 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -154,6 +154,8 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
     with tb.open_file(input_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
             for node in in_file_h5.root:  # Loop over potential hit tables in data file
+                if type(node) == tb.group.Group:  # e.g., arguments of previous analysis steps
+                    continue
                 logging.info('== Apply alignment to node %s ==', node.name)
                 hits_aligned_table = out_file_h5.create_table(
                     where=out_file_h5.root,
-- 
2.43.0


From 34aafe21b90a40b772547d8d440fdff6e8376f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 21/34] fix: apply_alignment converts the track of a plane with
 the pose of that plane only, also with more than ten planes

---
 beam_telescope_analysis/dut_alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index ac9c6c9..2677afa 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -103,7 +103,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
 
         if "Tracks" in node.name:
             format_strings = ['offset_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("DUT%d" % dut_index):
                 format_strings.extend(['offset_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
@@ -119,7 +119,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
                         rotation_gamma=dut.rotation_gamma)
 
             format_strings = ['slope_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("DUT%d" % dut_index):
                 format_strings.extend(['slope_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
-- 
2.43.0


From 85f51ce004e2188dbfb8bf5241519e0e5134f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 22/34] fix: convert_coordinates uses the given output file

---
 beam_telescope_analysis/hit_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 7ee070a..0e40c6f 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -109,6 +109,8 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
 
     if output_hit_file is None:
         output_file = os.path.splitext(input_hit_file)[0] + ('_local_coordinates.h5' if index_to_local else '_index.h5')
+    else:
+        output_file = output_hit_file
 
     with tb.open_file(input_hit_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
-- 
2.43.0


From 1f374a536147ec7d5e7f5977325788219c38fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 23/34] fix: convert_coordinates gives the pixel that contains
 the position

---
 beam_telescope_analysis/hit_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 0e40c6f..95e2144 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -166,11 +166,14 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
                         column=data_chunk['column'],
                         row=data_chunk['row'])
                 else:
-                    out_data['column'], out_data['row'] = dut.local_position_to_index(
+                    column, row = dut.local_position_to_index(
                         x=data_chunk['x'],
                         y=data_chunk['y'],
                         # z=data_chunk['z'])
                         z=0.0)
+                    # the index of the pixel containing the position
+                    out_data['column'] = np.clip(np.rint(column), 1, dut.n_columns)
+                    out_data['row'] = np.clip(np.rint(row), 1, dut.n_rows)
 
                 out_table.append(out_data)
                 pbar.update(data_chunk.shape[0])
-- 
2.43.0


From 573d7d94dae559508d70abd23d94a528962094fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 24/34] fix: keep_data of fit_tracks uses undefined names for
 reduced chi2 and probability

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index a3a0b67..05d0f28 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1402,9 +1402,9 @@ def create_results_array(n_duts, dut_offsets, dut_slopes, track_chi2s, track_chi
                 tracks_array['slope_z_dut_%d' % index_dut][~select_fit_tracks] = np.nan
         tracks_array['track_chi2'][select_fit_tracks] = track_chi2s
         tracks_array['track_chi2'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2_red
+        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2s_red
         tracks_array['track_chi_red'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2_prob
+        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2s_prob
         tracks_array['track_chi_prob'][~select_fit_tracks] = np.nan
         tracks_array['quality_flag'][select_fit_tracks] = quality_flag
         tracks_array['quality_flag'][~select_fit_tracks] = 0
-- 
2.43.0


From 616acd0279e25e5e0fd58fc14658482acbf1a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 25/34] fix: reduced chi2 of tracks with two hits is not
 infinite because of rounding

---
 beam_telescope_analysis/track_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 05d0f28..d8b5492 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1271,10 +1271,11 @@ def store_track_data(out_file_h5, track_candidates_chunk, select_fit_tracks, sel
         # track_chi2s = np.sum(np.ma.masked_invalid(xy_residuals_squared[:, select_fit_duts]), axis=1) / np.count_nonzero(~np.isnan(xy_residuals_squared[:, select_fit_duts]), axis=1)
         track_chi2s = (np.sum(np.ma.masked_invalid(x_residuals_squared[:, select_fit_duts] / x_err_squared[:, select_fit_duts]), axis=1) + np.sum(np.ma.masked_invalid(y_residuals_squared[:, select_fit_duts] / y_err_squared[:, select_fit_duts]), axis=1))
         # select tracks that have more than 2 data points
-        select_nonzero = (track_chi2s != 0.0)
+        n_fit_hits = np.count_nonzero(~np.isnan(x_residuals_squared[:, select_fit_duts]), axis=1)
+        select_nonzero = (n_fit_hits > 2)
         # divide by d.o.f.
         track_chi2s_red = np.zeros_like(track_chi2s)
-        track_chi2s_red[select_nonzero] = track_chi2s[select_nonzero] / (2 * (np.count_nonzero(~np.isnan(x_residuals_squared[:, select_fit_duts]), axis=1)[select_nonzero] - 2))
+        track_chi2s_red[select_nonzero] = track_chi2s[select_nonzero] / (2 * (n_fit_hits[select_nonzero] - 2))
         track_chi2s_prob = np.zeros_like(track_chi2s)
 
     for dut_index, dut in enumerate(telescope):
-- 
2.43.0


From 1625957d3f2db740dd2261a4d522f6236118b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 26/34] fix: errors in the threads of SMC are raised, not
 dropped

---
 beam_telescope_analysis/tools/smc.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 9f0f373..b795bd9 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -158,6 +158,7 @@ class SMC(object):
         self.force_stop = Event()
         self.data_deque = deque()
         self.res_deque = deque()
+        self.exceptions = deque()
         self.reader_thread = None
         # compute data
         self.split_map_combine()
@@ -326,20 +327,31 @@ class SMC(object):
             self.force_stop.set()
             raise
 
+    def _run_thread(self, target):
+        ''' Run the target function in a thread.
+
+        An exception stops all threads. It is raised by split_map_combine() after the threads have stopped.
+        '''
+        try:
+            target()
+        except Exception as e:
+            self.exceptions.append(e)
+            self.force_stop.set()
+
     def split_map_combine(self):
         self.pool = Pool(self.n_cores)
 
         self.out_file_opened.clear()
         self.force_stop.clear()
-        self.writer_thread = Thread(target=self._writer, name='WriterThread')
+        self.writer_thread = Thread(target=self._run_thread, args=(self._writer,), name='WriterThread')
         self.writer_thread.daemon = True
         self.writer_thread.start()
 
-        self.async_worker_thread = Thread(target=self._async_worker, name='AsyncWorkerThread')
+        self.async_worker_thread = Thread(target=self._run_thread, args=(self._async_worker,), name='AsyncWorkerThread')
         self.async_worker_thread.daemon = True
         self.async_worker_thread.start()
 
-        self.reader_thread = Thread(target=self._reader, name='ReaderThread')
+        self.reader_thread = Thread(target=self._run_thread, args=(self._reader,), name='ReaderThread')
         self.reader_thread.daemon = True
         self.reader_thread.start()
 
@@ -356,6 +368,11 @@ class SMC(object):
         self.pool.join()
         self.pool = None
 
+        if self.exceptions:
+            if self.out_file is not None and self.out_file.isopen:
+                self.out_file.close()
+            raise self.exceptions[0]
+
 
 if __name__ == '__main__':
     pass
-- 
2.43.0


From dfe890942c4d734eb5d6d1f61a8e5664da495881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 27/34] fix: SMC keeps the bins of multidimensional histograms
 of different size apart

---
 beam_telescope_analysis/tools/smc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index b795bd9..8191c46 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -291,11 +291,12 @@ class SMC(object):
                 else:
                     # Check if array needs to be resized
                     new_shape = np.maximum(hists[i].shape, res_data[i].shape)
-                    hists[i].resize(new_shape)
-                    # Copym resize and add array to result
-                    hist_copy = res_data[i].copy()
-                    hist_copy.resize(new_shape)
-                    hists[i] += hist_copy
+                    if np.any(new_shape != hists[i].shape):
+                        hist = np.zeros(new_shape, dtype=hists[i].dtype)
+                        hist[tuple(slice(n) for n in hists[i].shape)] = hists[i]
+                        hists[i] = hist
+                    # Add array to result
+                    hists[i][tuple(slice(n) for n in res_data[i].shape)] += res_data[i]
 
         if not self.force_stop.is_set():
             for i, curr_node_desc in enumerate(self.node_desc):
-- 
2.43.0


From 9d832a3afd957d22a1edfa54254fe1403f436099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 28/34] fix: SMC closes the output file when there was no data

---
 beam_telescope_analysis/tools/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 8191c46..a730c4c 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -298,7 +298,7 @@ class SMC(object):
                     # Add array to result
                     hists[i][tuple(slice(n) for n in res_data[i].shape)] += res_data[i]
 
-        if not self.force_stop.is_set():
+        if not self.force_stop.is_set() and not init:  # nothing to store if there was no data
             for i, curr_node_desc in enumerate(self.node_desc):
                 if res_data[i].dtype.names:  # Recarray
                     # rename temporary node
-- 
2.43.0


From 2e2cddff5081cc4180b68c895ad9df24463aec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 29/34] fix: derivatives of the Kalman alignment for the
 rotations ignore the rotation of the plane

---
 beam_telescope_analysis/dut_alignment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 2677afa..a6e0d7d 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -2157,6 +2157,7 @@ def _jacobian_alignment(p0, R):
 
     A = np.eye(6, dtype=np.float64)
     A[:3, :3] = R
+    A[3:, 3:] = R
 
     # Apply chain rule to transform into global coordinate system
     return np.matmul(jaq, A)
-- 
2.43.0


From be3f7b2ed36b2c05f76b644be9ce23ace947df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 30/34] fix: Kalman alignment takes the parameters to be
 aligned from the wrong plane and fails without a list of parameters

---
 beam_telescope_analysis/dut_alignment.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index a6e0d7d..1293cc6 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -2000,17 +2000,21 @@ def _calculate_initial_alignment(telescope, select_duts, select_telescope_duts,
 
         # Errors on initial alignment parameters
         if dut_index in select_duts:
-            if 'translation_x' in alignment_parameters[dut_index]:
+            # one item for each of the selected DUTs
+            dut_alignment_parameters = alignment_parameters[list(select_duts).index(dut_index)]
+            if dut_alignment_parameters is None:  # all parameters
+                dut_alignment_parameters = default_alignment_parameters
+            if 'translation_x' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 0, 0] = np.square(alignment_parameters_errors[0])
-            if 'translation_y' in alignment_parameters[dut_index]:
+            if 'translation_y' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 1, 1] = np.square(alignment_parameters_errors[1])
-            if 'translation_z' in alignment_parameters[dut_index]:
+            if 'translation_z' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 2, 2] = np.square(alignment_parameters_errors[2])
-            if 'rotation_alpha' in alignment_parameters[dut_index]:
+            if 'rotation_alpha' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 3, 3] = np.square(alignment_parameters_errors[3])
-            if 'rotation_beta' in alignment_parameters[dut_index]:
+            if 'rotation_beta' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 4, 4] = np.square(alignment_parameters_errors[4])
-            if 'rotation_gamma' in alignment_parameters[dut_index]:
+            if 'rotation_gamma' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 5, 5] = np.square(alignment_parameters_errors[5])
 
     # Fix first and last telescope plane (only rotation_gamma is not fixed).
-- 
2.43.0


From 2588b65c7ca660a603352ef3688e957700c3d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 31/34] fix: Kalman track fit fails with additional scattering
 planes

---
 beam_telescope_analysis/track_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index d8b5492..e535d3d 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1620,6 +1620,7 @@ def _fit_tracks_kalman_loop(track_hits, telescope, select_fit_duts, beam_energy,
 
     if scattering_planes:
         track_hits = np.append(arr=track_hits, values=np.full((track_hits.shape[0], len(scattering_planes), track_hits.shape[2]), fill_value=np.nan, dtype=np.float64), axis=1)
+        alpha = np.append(alpha, np.ones(len(scattering_planes)))  # no annealing
 
     chunk_size = track_hits.shape[0]
     n_duts = len(all_dut_planes)
-- 
2.43.0


From a0bd44197f0966b872fd23951ab77aaeeed0b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 32/34] fix: Kalman alignment sets the pose of planes without a
 hit to NaN

---
 beam_telescope_analysis/dut_alignment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 1293cc6..a6b94ac 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -2030,6 +2030,10 @@ def _update_alignment_parameters(telescope, H, V, C0, p0, a0, E0, track_hits, a1
     ''' Update alignment parameters and check for change. If rel. change too large, change is rejected.
     '''
     for dut_index, dut in enumerate(telescope):
+        # No information about DUTs without a hit
+        if np.any(np.isnan(track_hits[0, dut_index, :2])):
+            continue
+
         R = geometry_utils.rotation_matrix(
                 alpha=dut.rotation_alpha,
                 beta=dut.rotation_beta,
-- 
2.43.0


From a3e5b709dd50d7656120df98be590d17deb6cdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 33/34] fix: Kalman track fit fails if the first plane is a
 scattering plane

---
 beam_telescope_analysis/telescope/dut.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beam_telescope_analysis/telescope/dut.py b/beam_telescope_analysis/telescope/dut.py
index ff59691..ecf38e2 100644
--- a/beam_telescope_analysis/telescope/dut.py
+++ b/beam_telescope_analysis/telescope/dut.py
@@ -577,6 +577,10 @@ class ScatteringPlane(Dut):
     def __init__(self, name, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma, x_limit=None, y_limit=None, material_budget=None, intrinsic_resolution=None):
         super(ScatteringPlane, self).__init__(name=name, translation_x=translation_x, translation_y=translation_y, translation_z=translation_z, rotation_alpha=rotation_alpha, rotation_beta=rotation_beta, rotation_gamma=rotation_gamma, x_limit=x_limit, y_limit=y_limit, material_budget=material_budget, intrinsic_resolution=intrinsic_resolution)
 
+    # coordinate transformations depend only on the alignment of the plane
+    local_to_global_position = RectangularPixelDut.local_to_global_position
+    global_to_local_position = RectangularPixelDut.global_to_local_position
+
 
 class Diamond3DpCVD(FEI4):
     dut_attributes = ["name", "translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma", "x_limit", "y_limit", "material_budget", "intrinsic_resolution", "sensor_position"]
-- 
2.43.0


From 7b186a7d6e1b1e9ba4cfc6b36c4bcc120b387af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 34/34] fix: alignment takes the rotation of the last chunk
 instead of the average over all chunks

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index a6b94ac..7f88259 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1971,7 +1971,7 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
             # average rotation matrices from different chunks
             u_rot, _, v_rot = np.linalg.svd(rotation_average, full_matrices=False)
             rotation_average = np.dot(u_rot, v_rot)  # orthogonal matrix U
-            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation)
+            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation_average)
 
             actual_dut.translation_x = translation_average[0]
             actual_dut.translation_y = translation_average[1]
-- 
2.43.0

