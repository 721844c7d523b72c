#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Late measurements are fused as if they had arrived on time",
 "For a linear system, the filter's estimate and covariance after any interleaving of predictions and measurements, each measurement delayed by any number of steps within the history window since its start, equal those of the optimal estimator that knew every measurement when it was taken; the past states it reports are the corresponding smoothed estimates. A measurement older than the window, or one from which no finite gain can be computed, is refused and changes nothing.",
 ["schedules", "histories", "inputs"], "every order of predictions and measurement arrivals, every delay inside and outside the window, every dimension and window length",
 "the tests fuse one hand-written measurement at fixed delays; the guarantee is about every arrival order and delay, with the cross covariances of the augmented state built up over the whole history",
 ["kalman_filter/src/time_delay_kalman_filter.cpp", "kalman_filter/src/kalman_filter.cpp", "kalman_filter/include/kalman_filter/time_delay_kalman_filter.hpp"],
 [("state augmentation and block shift on predict", "kalman_filter/src/time_delay_kalman_filter.cpp"), ("delayed update through the augmented measurement matrix", "kalman_filter/src/time_delay_kalman_filter.cpp")],
 [("augmented state and covariance", "the last N states and all their cross covariances", "kalman_filter/src/time_delay_kalman_filter.cpp")])

prop("C02", "Fusion node: published odometry follows the documented estimator",
 "Given the messages it took and the times its timer fired, the odometry and transform the fusion node publishes at each tick equal those of the documented estimator: constant-velocity bicycle prediction with yaw bias over the measured interval, pose and twist measurements fused at the state they were stamped for, outliers beyond the Mahalanobis gate and measurements older than the history window ignored, and independent filters for height, roll and pitch. This holds under any loss, duplication, reordering, delay and timer jitter.",
 ["schedules", "histories", "fault_sequences", "configurations"], "every sequence of message arrivals, timer ticks and parameter settings",
 "the node is not covered by any test: the tests reach its pure helper functions one by one; what is published depends on the order in which callbacks and timer ticks interleave",
 ["ekf_localizer/src/ekf_localizer.cpp", "ekf_localizer/src/pose_measurement.cpp", "ekf_localizer/src/twist_measurement.cpp", "ekf_localizer/src/state_transition.cpp", "ekf_localizer/src/covariance.cpp", "ekf_localizer/include/ekf_localizer/delay.hpp", "ekf_localizer/src/mahalanobis.cpp", "ekf_localizer/src/check.cpp", "ekf_localizer/include/ekf_localizer/ekf_localizer.hpp", "kalman_filter/src/time_delay_kalman_filter.cpp"],
 [("predict, pose update, twist update, publish", "EKFLocalizer::timerCallback, ekf_localizer/src/ekf_localizer.cpp"), ("measurement buffering and gating", "PoseMeasurement::Update, TwistMeasurement::Update")],
 observe=["topic ekf_odom", "topic /tf"])

prop("C03", "Fusion node: one stamped estimate per tick, and it never stops for good",
 "Before the first usable initial pose the fusion node publishes nothing; afterwards every timer tick on which its clock has moved on publishes exactly one odometry message and one transform, both stamped with the time of that tick and carrying the same pose in the configured frame. A clock that jumps backwards suppresses output only until it has caught up, a forward jump or a stall never stops it, and output resumes within one timer period once the disturbance ends.",
 ["schedules", "fault_sequences", "histories"], "every pattern of clock jumps, drift, stalls, timer jitter, lost and late inputs",
 "needs a clock that jumps and a timer that stalls under the test's control, and a node; the tests only call the interval computation twice",
 ["ekf_localizer/src/ekf_localizer.cpp", "ekf_localizer/src/update_interval.cpp", "ekf_localizer/include/ekf_localizer/update_interval.hpp"],
 [("early return before initialisation", "EKFLocalizer::timerCallback"), ("interval computation that refuses a clock going backwards", "ekf_localizer/src/update_interval.cpp")],
 observe=["topic ekf_odom", "topic /tf"])

prop("C04", "Fusion node: malformed input cannot crash it or poison its estimate",
 "No sequence of pose, twist and initial-pose messages, whatever their numbers, stamps, covariances and frame names (non-finite, zero or negative variances, null quaternions, zero, negative or far future stamps, arbitrary text), makes the fusion node terminate or publish a non-finite pose, twist or covariance. Measurements whose values, orientation or covariance are not usable leave the estimate exactly as if they had never been sent, and after the last of them the node keeps following its valid inputs.",
 ["inputs", "fault_sequences", "histories"], "every mix of valid and corrupted messages, at every point of the node's life",
 "the tests check the finite-value test on single vectors; whether anything slips past into the persistent filter state is a property of whole message histories",
 ["ekf_localizer/src/ekf_localizer.cpp", "ekf_localizer/src/check.cpp", "ekf_localizer/src/pose_measurement.cpp", "ekf_localizer/src/twist_measurement.cpp", "ekf_localizer/src/mahalanobis.cpp", "ekf_localizer/include/ekf_localizer/warning.hpp", "ekf_localizer/include/ekf_localizer/delay.hpp"],
 [("finite checks and gating", "ekf_localizer/src/check.cpp"), ("refusal of malformed updates", "kalman_filter/include/kalman_filter/kalman_filter.hpp")],
 observe=["process exit", "topic ekf_odom"])

prop("C05", "Fusion node: published covariances are valid and never fake certainty",
 "Every published pose and twist covariance is finite, symmetric and positive semidefinite, with the planar blocks where the message convention puts them (x, y, yaw; forward speed, yaw rate) and nothing elsewhere. Over an interval without measurements the velocity uncertainty grows by exactly the configured process noise of that interval, and no uncertainty shrinks before the first measurement; receiving additional measurements never leaves the estimate more uncertain than it would have been without them.",
 ["histories", "schedules", "inputs", "fault_sequences"], "every history of valid measurements, delays, losses, gaps and clock disturbances",
 "the tests check the index layout on a constant matrix; positivity is lost, if at all, through accumulated delayed updates and long prediction gaps",
 ["ekf_localizer/src/covariance.cpp", "ekf_localizer/src/state_transition.cpp", "ekf_localizer/src/ekf_localizer.cpp", "kalman_filter/src/time_delay_kalman_filter.cpp"],
 [("covariance prediction and update", "kalman_filter/src/time_delay_kalman_filter.cpp"), ("conversion to message layout", "ekf_localizer/src/covariance.cpp")],
 observe=["topic ekf_odom"])

prop("C06", "Fusion node: each accepted measurement is used exactly its smoothing count",
 "Every pose and twist measurement the fusion node takes is fused exactly the configured number of times, once per timer tick on consecutive ticks starting with the first tick after it arrived, each time with its noise multiplied by that number, so that in total it counts once. Measurements waiting together are all used on the same tick, none is skipped, repeated or reordered because of the others, and re-initialisation discards all that are pending.",
 ["schedules", "histories", "configurations"], "every arrival pattern relative to the ticks (bursts included), every smoothing count, every mix with stale measurements and re-initialisations",
 "the queue is tested alone with one element; the guarantee is about several measurements of different age in the queue at the same tick",
 ["ekf_localizer/include/ekf_localizer/aged_message_queue.hpp", "ekf_localizer/src/pose_measurement.cpp", "ekf_localizer/src/twist_measurement.cpp", "ekf_localizer/src/ekf_localizer.cpp"],
 [("ageing message queue", "ekf_localizer/include/ekf_localizer/aged_message_queue.hpp"), ("per tick update loops", "PoseMeasurement::Update, TwistMeasurement::Update")],
 [("aged queue", "pending measurements and how often each has been used", "ekf_localizer/include/ekf_localizer/aged_message_queue.hpp")],
 ["topic ekf_odom"])

prop("C07", "Fusion node: initial pose takes effect completely or not at all",
 "An initial pose in the map frame, or in any frame whose transform to it is known, restarts the estimate at exactly that pose expressed in the map frame (position, heading, height, roll and pitch) with the given uncertainty, zero velocity and no memory of earlier measurements. An initial pose whose frame cannot be related to the map frame changes nothing, and the node lives on, whatever the timing of transforms appearing, disappearing or changing.",
 ["histories", "schedules", "fault_sequences"], "every order of initial poses, transforms, measurements and ticks, known and unknown frames, with the transform listener lagging or losing messages",
 "no test runs the initialisation path: it needs a node, a transform buffer and messages at chosen times",
 ["ekf_localizer/src/ekf_localizer.cpp", "ekf_localizer/src/tf.cpp", "ekf_localizer/include/ekf_localizer/tf.hpp", "ekf_localizer/src/string.cpp"],
 [("initial pose callback", "EKFLocalizer::callbackInitialPose"), ("transform lookup with retries", "ekf_localizer/src/tf.cpp")],
 observe=["topic ekf_odom", "topic /tf"])

prop("C08", "Fusion node: behaviour does not depend on the map's orientation",
 "Rotating and shifting the whole scenario (initial pose, pose measurements and their covariances) rotates and shifts the published trajectory and covariance by the same amount and changes nothing else. In particular a vehicle that turns through a heading of plus or minus pi, any number of times, is tracked as well as any other: measurements near the seam never pull the heading the long way round.",
 ["inputs", "histories", "schedules"], "every trajectory, every rotation and shift of it, every arrival schedule",
 "the tests normalise single angles; the seam matters when predicted and measured headings lie on different sides of it during a run",
 ["ekf_localizer/src/pose_measurement.cpp", "ekf_localizer/src/state_transition.cpp", "ekf_localizer/include/ekf_localizer/normalize_yaw.hpp", "ekf_localizer/src/ekf_localizer.cpp", "kalman_filter/src/time_delay_kalman_filter.cpp"],
 [("yaw normalisation in prediction and measurement", "ekf_localizer/src/state_transition.cpp")],
 observe=["topic ekf_odom"])

prop("C09", "Mapping: the map is exactly the keyframe scans placed at their own poses",
 "When mapping ends, the saved map is exactly the union of the keyframe scans, each transformed by the pose bearing the same stamp, in order: the first scan that has a pose, and then each that has moved at least the keyframe distance or rotation from the last one added. No interleaving, delay, loss, duplication or reordering of scans and poses ever combines a scan with another stamp's pose, inserts one twice, or loses a pair that was delivered before any newer pair was complete. A pose that is not usable (not finite, no rotation) and an empty scan add nothing, the process survives them, and nothing is written when nothing was added.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of the threads, every delivery order, loss and duplication of scans and poses",
 "the mapping node has no test; its helper tests insert two clouds in order; pairing by stamp under a multi-threaded executor needs a controlled scheduler",
 ["mapping/src/mapping.cpp", "mapping/include/lidar_feature_mapping/map.hpp", "lib/include/lidar_feature_library/ros_msg.hpp", "lib/src/eigen.cpp"],
 [("exact time synchroniser", "mapping/src/mapping.cpp"), ("keyframe test and insertion", "mapping/include/lidar_feature_mapping/map.hpp")],
 observe=["maps/edge.pcd"])

prop("C10", "Maps on disk: what is saved is read back bit for bit, failure is never silent",
 "A map whose save succeeded is read back by its readers with every point and field bit for bit, also after a loss of power at any later moment. Whatever happens during a save (full disk, a failing open, allocation, mapping, write, sync, close or rename, a kill or loss of power at any call), the map file is afterwards either exactly what it was before (or still absent) or the complete new map, no other file is touched, a save that could not complete is reported and never counts as success, and a later save succeeds over whatever was left behind. Given a map file that is missing or truncated, map_loader and localization refuse it with an error and nothing is served; a good map is never refused without a fault, and what is served is always exactly the file.",
 ["crash_points", "fault_sequences", "inputs"], "every failing or crashing file system call during a save, every truncation of the file, every map content and size",
 "the tests write one cloud to a healthy disk and read it back; nothing injects a failing system call or a torn file",
 ["mapping/include/lidar_feature_mapping/map.hpp", "mapping/src/mapping.cpp", "localization/include/lidar_feature_localization/map_io.hpp", "localization/app/localization.cpp", "map_loader/src/map_loader.cpp"],
 [("map saving", "mapping/include/lidar_feature_mapping/map.hpp"), ("map reading", "localization/include/lidar_feature_localization/map_io.hpp, map_loader/src/map_loader.cpp")],
 observe=["files under maps/", "process exit", "topic /pointcloud_map"])

prop("C11", "Localization: one pose per scan pair, from the prior nearest in time",
 "Once any usable prior pose (finite position, unit quaternion) has arrived, each pair of edge and surface scans with the same stamp yields exactly one pose estimate and one transform, with the scan's stamp, in the map frame, and equal to each other; no scan is ever paired with another stamp's scan, and nothing is published for a scan without partner. The estimate depends only on that pair, the map and the received usable prior closest in time (it is what a freshly started node would answer; priors more than a second older than a processed scan may be forgotten). Where the scan shows enough distinct edges and surfaces of the map, an estimate from a nearby prior puts the scan where it belongs, and a scan that shows next to nothing leaves the prior as it is. The process survives scans and priors of any content and order, ignores unusable priors, and never publishes a pose that is not finite.",
 ["schedules", "fault_sequences", "histories", "inputs"], "every delivery order, loss, duplication and delay of the two scan topics and the prior topic",
 "tests call the optimiser on fixed clouds; pairing, choosing the prior and independence of history exist only in the running node",
 ["localization/app/localization.cpp", "localization/include/lidar_feature_localization/subscriber.hpp", "localization/include/lidar_feature_localization/stamp_sorted_objects.hpp", "localization/include/lidar_feature_localization/localizer.hpp", "localization/src/optimizer.cpp"],
 [("exact time synchroniser and prior selection", "localization/include/lidar_feature_localization/subscriber.hpp"), ("stamp ordered prior buffer", "localization/include/lidar_feature_localization/stamp_sorted_objects.hpp")],
 observe=["topic estimated_pose", "topic /tf"])

prop("C12", "Prior buffer: concurrent access is linearizable, discarding is exact",
 "Operations of several threads on the stamp ordered prior buffer (insert, nearest lookup, discard old, size) behave as if each took effect at one instant: nearest always returns an entry that was inserted, not yet discarded or replaced by a newer entry of the same stamp, and closest to the requested stamp among those. Discarding relative to a stamp removes exactly the entries on the far side of it, also when that is all or none of them, and never any other. An operation that runs out of memory changes nothing and leaves the buffer usable.",
 ["schedules", "histories"], "every interleaving of concurrent operations at every lock and container access",
 "the tests are single threaded; linearizability quantifies over interleavings",
 ["localization/include/lidar_feature_localization/stamp_sorted_objects.hpp"],
 [("mutex around the sorted container", "localization/include/lidar_feature_localization/stamp_sorted_objects.hpp")])

prop("C13", "Feature extraction: one consistent output set per scan, whatever came before",
 "Every scan the extraction node takes yields exactly one edge cloud, one surface cloud and one coloured cloud, all with the scan's stamp, in the vehicle's lidar frame; every output point is a point of that scan, no point is both edge and surface, and every edge or surface point lies within the configured range. The output depends only on the scan's set of points (not on earlier scans, on delivery timing or on how points of different rings are interleaved), and no scan, whatever its points, crashes the node or affects later output; one that is declared not dense or has no ring channel may at most make it shut down in an orderly way.",
 ["inputs", "histories", "fault_sequences", "schedules"], "every scan content (rings of any size, duplicate, collinear, non-finite points), every order of points and scans, with loss, duplication and reordering",
 "the tests feed hand-written rings to single stages; the node's own input to output contract is not exercised",
 ["extraction/app/feature_extraction.cpp", "extraction/include/lidar_feature_extraction/ring.hpp", "extraction/include/lidar_feature_extraction/label.hpp", "extraction/include/lidar_feature_extraction/color_points.hpp", "extraction/src/ring.cpp", "extraction/src/math.cpp", "lib/include/lidar_feature_library/ros_msg.hpp"],
 [("per scan pipeline", "extraction/app/feature_extraction.cpp"), ("ring splitting and sorting", "extraction/include/lidar_feature_extraction/ring.hpp")],
 observe=["topics scan_edge, scan_surface, colored_scan"])

prop("C14", "Path: the published path is the growing record of received poses",
 "The n-th path published by the path generator consists of exactly the n poses it has received, in the order received and with their own stamps and frames, under the header of the latest; earlier entries never change. A viewer that joins at any time receives the current path without waiting for the next pose.",
 ["schedules", "histories", "fault_sequences"], "every sequence, delay, loss and duplication of poses; every moment at which a viewer joins or the node restarts",
 "no test runs the node; late joining and message loss need a simulated middleware",
 ["path_generator/include/path_generator/path_generator.hpp", "path_generator/src/node.cpp"],
 [("path accumulation", "path_generator/include/path_generator/path_generator.hpp")],
 observe=["topic path"])

prop("C15", "Map server and map frame: late joiners get the map file, centred view frame",
 "The map server publishes exactly the points of the configured map file, once, in the map frame, to every subscriber that joins at any time; without a usable file it refuses to serve instead of publishing an empty or wrong map. The view-frame generator broadcasts, for any map it receives, a static transform to the mean position of its points that is finite and available to late joiners.",
 ["schedules", "inputs", "fault_sequences"], "every start order of server, frame generator and consumers, every restart, every map content including empty and non-finite points, every kind of bad file",
 "both nodes have no tests; start order and late joining are properties of the running system",
 ["map_loader/src/map_loader.cpp", "map_tf_generator/src/map_tf_generator_node.cpp"],
 [("latched publisher", "map_loader/src/map_loader.cpp"), ("static transform broadcast of the centroid", "map_tf_generator/src/map_tf_generator_node.cpp")],
 observe=["map topic", "topic /tf_static"])

prop("C16", "Whole system: localization recovers once the disturbances stop",
 "With the system wired and parametrised as its launch files do it, on whatever topics their arguments choose, and driving in an environment which its mapping has surveyed: the fused odometry stays close to the true pose while scans and wheel speeds arrive, and through any finite period of message loss, delay, reordering, duplication, partition, stall or crash and restart of the nodes between lidar and fusion, as long as scans meet predictions from around their time. Each scan matched from a nearby prediction yields an estimate near the true pose. After any such period, also one that hit the fusion node, its wheel speeds or its initial pose, the system is back at the true pose within a bounded time once the disturbance has stopped, at most after being given a new initial pose, and without restarting the other nodes.",
 ["schedules", "fault_sequences", "crash_points"], "every combination of faults that ends, every crash and restart point of each node",
 "no test runs more than one component; recovery is a property of the composed system under faults",
 ["lidar_feature_launch/launch/localization.launch.py", "lidar_feature_launch/launch/mapping.launch.py", "lidar_feature_launch/config/lidar_feature_extraction.param.yaml", "extraction/app/feature_extraction.cpp", "localization/app/localization.cpp", "localization/include/lidar_feature_localization/optimizer.hpp", "ekf_localizer/src/ekf_localizer.cpp", "mapping/src/mapping.cpp", "map_loader/src/map_loader.cpp"],
 [("feedback of fused odometry as optimisation start", "lidar_feature_launch/launch/localization.launch.py")],
 observe=["topic ekf_odom", "topic estimated_pose"])

prop("C17", "Feature extraction: edges and surfaces are the points the rules select",
 "For every scan the published edge and surface points are exactly those selected by the extraction rules: per ring ordered by angle, points out of range, occluded or on near-parallel beams excluded, curvature computed over the configured window, edges the locally strongest points above the edge threshold and surfaces the flattest below the surface threshold, with neighbours of a selected point suppressed, block by block. The colour of each point in the coloured output tells which of these happened to it. A ring that cannot be processed contributes nothing and does not disturb the other rings.",
 ["inputs", "configurations", "histories"], "every scan geometry and ring size, every parameter setting, scans arriving in any order and number",
 "each stage is unit-tested on a few points; the composition over whole scans, block limits and ring ends is not",
 ["extraction/app/feature_extraction.cpp", "extraction/include/lidar_feature_extraction/label.hpp", "extraction/include/lidar_feature_extraction/fill.hpp", "extraction/include/lidar_feature_extraction/neighbor.hpp", "extraction/include/lidar_feature_extraction/occlusion.hpp", "extraction/include/lidar_feature_extraction/parallel_beam.hpp", "extraction/include/lidar_feature_extraction/out_of_range.hpp", "extraction/include/lidar_feature_extraction/index_range.hpp", "extraction/src/curvature.cpp", "extraction/src/convolution.cpp", "extraction/src/index_range.cpp"],
 [("labelling", "extraction/include/lidar_feature_extraction/label.hpp")],
 observe=["topics scan_edge, scan_surface, colored_scan"])

prop("C18", "Converter: every scan arrives in the common layout, nothing altered or lost",
 "Every point cloud the converter takes, in whatever layout the lidar driver chose (order, offsets, gaps and "
 "number types of its fields, further fields, byte order, organised or not), yields exactly one cloud, with the "
 "header of the scan, in the layout the extraction reads: exactly the scan's points that are not at the origin, "
 "in their order, with coordinates, intensity and ring keeping their values bit for bit. No scan that has "
 "arrived is skipped or mixed with another, however far the converter falls behind; a cloud that cannot be "
 "converted (no such field, inconsistent layout, ring number out of range) neither ends it nor affects others.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "every cloud layout, content and sequence, under any loss, duplication, reordering, stall and restart",
 "the tests convert single clouds of two points in one layout; none sends a cloud that cannot be converted",
 ["point_type_converter/point_type_converter/convert.py"],
 [("conversion by field descriptions", "point_type_converter/point_type_converter/convert.py"),
  ("keep-all subscription and publisher", "PointTypeConverter.__init__")],
 observe=["topic /points_converted"])

prop("C19", "Rotation and Jacobian algebra agrees with its definitions",
 "Quaternion, rotation-matrix, roll-pitch-yaw and hat-operator conversions are mutually consistent for all finite inputs, and analytic Jacobians equal the derivatives of the residuals they belong to.",
 ["inputs"], "all finite rotations, vectors and points",
 "the tests compare at single points",
 ["rotationlib/src/quaternion.cpp", "rotationlib/src/jacobian/quaternion.cpp", "localization/src/jacobian.cpp"],
 [("closed formulas", "rotationlib/src/quaternion.cpp")])

prop("C20", "Gyro integration equals the composition of the increments",
 "Integrating angular velocities over consecutive intervals equals the ordered product of the individual rotations, for all rates and intervals.",
 ["inputs"], "all sequences of rates and intervals",
 "the tests integrate a few constant rates",
 ["imu_integration/src/integration.cpp"],
 [("incremental rotation product", "imu_integration/src/integration.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
