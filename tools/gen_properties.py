#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Source of truth for the property texts."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

p("C01", "Every estimate is judged exactly once, every ground truth used at most once",
  "For any lists of estimated and ground-truth objects of a frame, the pairing returns every estimated object exactly once (paired or unpaired), uses every ground-truth object at most once, and pairs only objects carrying the same label, all returned objects being unaltered copies of the inputs. An estimate is left unpaired only when no unused ground truth of its label remains.",
  ["inputs"], "all lists of estimates and ground truths (any length, order, labels, poses, duplicates and ties)",
  "The only test of the pairing calls it with one estimate and one ground truth and asserts nothing on the outcome; conservation must hold for every pair of lists.",
  ["src/result/object.rs"], [("get_perception_results, get_score_table, get_fp_perception_results", "src/result/object.rs")],
  observe=["get_perception_results"])
p("C02", "Objects are paired nearest first, whatever the input order",
  "Pairs are formed in order of increasing 3D centre distance: there is no estimate and ground truth of the same label, not paired with each other, that are both strictly closer to one another than to the partner they were given (an unpaired object counting as infinitely far from its partner). When all same-label centre distances differ, the set of pairs is the same for every order in which the two lists are supplied.",
  ["inputs"], "all lists of estimates and ground truths with finite coordinates, and all permutations of both lists",
  "Needs several competing objects; the doc-test has a single pair.",
  ["src/result/object.rs", "src/matching.rs"], [("greedy selection on the score table", "src/result/object.rs"), ("centre distance", "src/matching.rs")],
  observe=["get_perception_results"])
p("C03", "A frame's verdict is a partition into TP, FP and FN",
  "In a frame result, every result whose estimate has a target label is reported exactly once, as TP if it is paired and its pair passes that label's own threshold under the given matching mode and as FP otherwise, results of other labels being reported as neither; both lists keep the order of the results. Every ground truth of the frame is FN unless it is the counterpart of a TP, so that when the TPs have distinct counterparts in the frame, TP and FN together count the ground truths of the frame, even when two ground truths share pose and label.",
  ["inputs", "configurations"], "all result lists, ground-truth lists, target-label lists, per-label thresholds and the four matching modes",
  "No existing test constructs a frame result at all.",
  ["src/result/frame.rs", "src/threshold.rs"], [("separate_tp_fp_results", "src/result/frame.rs"), ("extract_fn_objects / is_fn_object", "src/result/frame.rs"), ("get_label_threshold", "src/threshold.rs")],
  observe=["PerceptionFrameResult::new", "tp_results", "fp_results", "fn_objects"])
p("C04", "Filtering keeps exactly the objects that satisfy every configured condition",
  "Filtering returns, unaltered and in their input order, exactly the objects whose label is a target label and whose absolute x and absolute y are strictly below the configured maxima; for ground truths, additionally, a known point count must reach the configured minimum (if one is set) and the instance ID must be among the target IDs (if a list is set, an object without ID failing). Estimates are never dropped for their point count or ID.",
  ["inputs", "configurations"], "all objects, all filter configurations, estimates and ground truths",
  "The doc-test and unit tests cover two objects and one configuration; boundaries, optional fields and the estimate/ground-truth distinction are not covered in combination.",
  ["src/filter.rs", "src/config.rs"], [("filter_objects / is_target_object", "src/filter.rs"), ("FilterParams::new", "src/config.rs")],
  observe=["filter_objects"])
p("C05", "Reported AP and APH equal their definition",
  "For every target label and for both the centre-distance and the plane-distance criterion, the reported AP is the area under the interpolated precision-recall curve (precision at a recall is the best precision at that or any higher recall) of the label's estimates ranked by descending confidence over the whole history, recall being taken over the label's ground-truth count; APH is the same with each true positive weighted by 1 - |heading difference|/pi. A label with ground truths but no estimates scores 0, as does one with estimates but no ground truths, and a label with neither is reported as NaN.",
  ["inputs", "histories"], "all histories of frames, all rank orders of true and false positives, all confidences",
  "No existing test computes an AP at all; the value depends on the whole ranked sequence.",
  ["src/metrics/detection.rs", "src/metrics/tp_metrics.rs", "src/metrics/score.rs", "src/manager.rs"],
  [("Ap::calculate_ap, interpolate_precision_recall, calculate_precision_recall, calculate_tp_fp", "src/metrics/detection.rs"), ("TPMetricsAP / TPMetricsAPH", "src/metrics/tp_metrics.rs")],
  observe=["PerceptionEvaluationManager::get_metrics_score (Display of the score)"])
p("C06", "Scores obey 0 <= APH <= AP <= 1, reward correctness, and average faithfully",
  "Every reported score that is not NaN satisfies 0 <= APH <= AP <= 1; AP is 1 when every ground truth is matched by a passing estimate and there is no other estimate, and 0 when no estimate passes. Turning a false positive into a true positive of an otherwise missed ground truth, without changing confidences, never lowers AP, and adding a false positive never raises it; each reported mean equals the arithmetic mean of the per-label values in the same report.",
  ["inputs", "histories"], "all histories and all single-step changes of them",
  "A relation between pairs of evaluations over all histories; no test computes one score.",
  ["src/metrics/detection.rs", "src/metrics/tp_metrics.rs"], [("Ap::calculate_ap", "src/metrics/detection.rs"), ("Display for DetectionMetricsScore", "src/metrics/detection.rs")],
  observe=["Display of MetricsScore"])
p("C07", "The score is a function of the accumulated frames only",
  "Adding a frame appends exactly one frame result, holding the filtered estimates and the filtered ground truths of that frame, and leaves all earlier results untouched; asking for the score never fails for the detection task on any history, never changes the manager, and gives the same report when asked again or, if all confidences differ, when the same frames are added in another order. For a task other than detection, asking for a score is an error, not a score.",
  ["histories"], "all histories of adding frames, asking for scores and looking up ground truths, including empty histories and frames empty on either side",
  "Only the construction of a manager is tested; no test adds a frame or asks for a score.",
  ["src/manager.rs", "src/filter.rs"], [("add_frame_result, get_metrics_score", "src/manager.rs"), ("hash_results / hash_num_objects", "src/filter.rs")],
  state=[("frame_results", "accumulated evaluated frames", "src/manager.rs")],
  observe=["PerceptionEvaluationManager"])
p("C08", "Labels are evaluated independently of one another",
  "The pairs, verdicts, AP and APH of one label do not change when objects of other labels are added, removed, moved or changed, nor when other target labels are added, removed or reordered in the configuration. Naming a target label more than once, for instance through synonyms, changes no score of any label.",
  ["inputs", "configurations"], "all pairs of scenes that agree on one label, and all target-label lists containing it, with repetitions",
  "A hyperproperty relating two evaluations; no test runs an evaluation.",
  ["src/manager.rs", "src/filter.rs", "src/result/object.rs", "src/metrics/detection.rs"],
  [("hash_results, hash_num_objects", "src/filter.rs"), ("get_metrics_score accumulation", "src/manager.rs"), ("label test in get_score_table", "src/result/object.rs")],
  observe=["Display of MetricsScore", "PerceptionFrameResult"])
p("C09", "Quaternion helpers implement one consistent rotation group",
  "For unit quaternions (w, x, y, z order), the rotation matrix is the proper orthogonal matrix R of the quaternion, rotating a position by q applies R to it, and inverse rotation and inverse translation undo rotation and translation. Rotating an orientation q1 by q2 yields the orientation whose rotation is R(q2) after R(q1), inverse-rotating undoes it, and the inverse of q represents the inverse rotation. Products and inverses of quaternions that are not of unit length (but not zero) are those of the quaternion algebra: the inverse times the quaternion is one, and inverse-rotating an orientation undoes rotating it.",
  ["inputs"], "all unit quaternions, pairs of them, and all positions; for products and inverses all quaternions but zero",
  "Doc-tests use the identity rotation only, for which the transposed matrix and the element-wise product also pass.",
  ["src/utils/math.rs", "src/dataset/nuscenes/box.rs"], [("quaternion2rotation, rotate, rotate_inv, rotate_q, rotate_q_inv, inverse_quaternion, translate, translate_inv", "src/utils/math.rs"), ("NuScenesBox::rotate / translate and inverses", "src/dataset/nuscenes/box.rs")],
  observe=["utils::math functions", "NuScenesBox"])
p("C10", "Roll, pitch, yaw and heading describe the orientation",
  "For every unit quaternion, the reported roll, pitch and yaw are finite, lie in [-pi, pi], [-pi/2, pi/2] and [-pi, pi], and away from pitch +-90 degrees compose (yaw about z, then pitch about y, then roll about x) back to the same rotation. The heading of an object is its yaw, in all four quadrants, and is the same for q and -q up to a full turn.",
  ["inputs"], "all unit quaternions, both signs, all quadrants of each angle",
  "The doc-tests use the identity quaternion only.",
  ["src/utils/math.rs", "src/object/object3d.rs"], [("quaternion2euler", "src/utils/math.rs"), ("DynamicObject::heading / euler / rotation_matrix", "src/object/object3d.rs")],
  observe=["quaternion2euler", "DynamicObject::heading"])
p("C11", "An object's box geometry is the rigidly placed box",
  "An object's footprint is the four corners front-left, rear-left, rear-right, front-right of its box at the height of its centre: the local offsets (+-length/2, +-width/2, 0), with size given as [width, length, height] and length along the heading, rotated by the object's orientation and translated by its position. Area is width x length, volume is area x height, and the distances to the origin or to a point are the Euclidean ones in 3D and in the x-y plane.",
  ["inputs"], "all positions, unit orientations and sizes",
  "The doc-test uses the identity orientation and a square box, which hide rotation direction and the order of the two dimensions.",
  ["src/object/object3d.rs", "src/utils/point.rs"], [("footprint, area, volume, distance*", "src/object/object3d.rs"), ("distance_points, distance_points_bev", "src/utils/point.rs")],
  observe=["DynamicObject methods"])
p("C12", "2D IoU is the true overlap ratio of the two rotated footprints",
  "The 2D IoU by which a pair is judged equals the area of the intersection of the two footprints divided by the area of their union, for every relative position and heading of the two boxes. It is therefore symmetric, in [0, 1], 1 for identical boxes, 0 for disjoint ones, and unchanged when both boxes are moved by the same rigid motion in the plane.",
  ["inputs"], "all pairs of boxes with positive size, level orientation, any headings",
  "The test uses two identical axis-aligned boxes.",
  ["src/matching.rs"], [("Iou2dMatching, get_intersection_area", "src/matching.rs")],
  observe=["PerceptionResult::is_result_correct with Iou2d (score recovered by bisecting the threshold)"])
p("C13", "3D IoU is the true overlap ratio of the two boxes",
  "The 3D IoU by which a pair is judged equals the volume common to the two level boxes (footprint overlap times the overlap of their height intervals, 0 if these are disjoint) divided by the volume of their union. It is symmetric, in [0, 1], and never exceeds what the height overlap alone allows.",
  ["inputs"], "all pairs of boxes with positive size, level orientation, any headings and heights",
  "The test uses two identical boxes, for which the union height equals the intersection height.",
  ["src/matching.rs"], [("Iou3dMatching, get_intersection_height, get_intersection_volume", "src/matching.rs")],
  observe=["PerceptionResult::is_result_correct with Iou3d"])
p("C14", "Centre distance and plane distance equal their geometric definitions",
  "The centre distance of a pair is the 3D Euclidean distance of the two centres. The plane distance is the root mean square of the x-y distances between the left corners and between the right corners of the two boxes' nearest sides, a box's nearest side being its two footprint corners closest to the ego origin, left and right being as seen from the origin; it is 0 for identical boxes, symmetric, and unchanged when both boxes are rotated together about the origin's vertical axis.",
  ["inputs"], "all pairs of boxes whose nearest sides are unambiguous",
  "The tests use two identical boxes, whose distances are 0 under many wrong definitions.",
  ["src/matching.rs", "src/utils/point.rs"], [("CenterDistanceMatching, PlaneDistanceMatching", "src/matching.rs"), ("get_point_left_right, distance_points_bev", "src/utils/point.rs")],
  observe=["PerceptionResult::is_result_correct", "get_point_left_right", "distance_points*"])
p("C15", "A pair is correct exactly when its score strictly beats the threshold",
  "A pair is judged correct exactly when its distance is strictly below the threshold (centre or plane distance) or its IoU is strictly above it (2D or 3D), so the verdict is monotone in the threshold and a score equal to the threshold fails; a result without ground truth is never correct, whatever the mode and threshold. The verdict depends on the two boxes only, not on their labels, confidences, IDs, timestamps, frames or point counts.",
  ["inputs", "configurations"], "all pairs, modes and thresholds, including boundary, zero, negative and infinite thresholds",
  "Tests check one comfortable threshold per mode on identical objects.",
  ["src/result/object.rs", "src/matching.rs"], [("PerceptionResult::is_result_correct, is_label_correct", "src/result/object.rs"), ("is_better_than of each mode", "src/matching.rs")],
  observe=["PerceptionResult::is_result_correct"])
p("C16", "Ground-truth lookup returns the nearest frame within 75 ms",
  "Looking up the ground truth for a time returns an unaltered copy of the frame whose timestamp is nearest to it, at full timestamp resolution, if the absolute difference is less than 75 ms, and nothing otherwise. Among equally near frames the earliest in the list is returned; the order of the list does not otherwise matter and an empty list gives nothing.",
  ["inputs"], "all frame lists (sorted or not, any length) and all query times",
  "Only exercised by an example on a one-frame dataset, never at the boundary, with competitors or with sub-millisecond differences.",
  ["src/dataset.rs", "src/manager.rs"], [("get_current_frame", "src/dataset.rs"), ("get_frame_ground_truth", "src/manager.rs")],
  observe=["get_current_frame", "PerceptionEvaluationManager::get_frame_ground_truth"])
p("C17", "A corrupted dataset is rejected with an error, never accepted or crashed on",
  "Loading a dataset terminates and returns an error, without panicking, whenever a table is missing, truncated at any byte or malformed, a record refers to a record that does not exist (maps naming unknown logs excepted), or the chain of an instance's annotations or of a scene's samples disagrees with its own links, declared last element or declared count. A dataset free of these faults, with sensor data for every sample, loads without error.",
  ["fault_sequences", "inputs"], "all single and double corruptions of a reference, count or link, every truncation point of every table",
  "Tests load one intact dataset; no corrupted one.",
  ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/internal.rs", "src/dataset/nuscenes/schema.rs"],
  [("integrity checks in NuScenes::load", "src/dataset/nuscenes.rs"), ("InstanceInternal::from, SceneInternal::from", "src/dataset/nuscenes/internal.rs"), ("load_json", "src/dataset/nuscenes.rs")],
  observe=["NuScenes::load", "load_dataset"])
p("C18", "Loading yields every annotation once, in its frame, in time order",
  "Loading a consistent dataset yields one frame per sample in chronological order, frames without annotations included, with the sample's timestamp. Given that a sample has LiDAR data at its own timestamp, its frame holds exactly one object per annotation of that sample, with that annotation's size, LiDAR point count and instance ID, the label of its instance's category, confidence 1, the requested frame ID and the frame's timestamp.",
  ["inputs"], "all consistent datasets: any scenes, samples, instances, annotations, sensors and sensor records",
  "The fixture has a single scene, sample and annotation.",
  ["src/dataset.rs", "src/dataset/nuscenes.rs"], [("load_dataset, sample_to_frame", "src/dataset.rs"), ("NuScenes::load grouping and sorting, get_boxes, get_box", "src/dataset/nuscenes.rs")],
  observe=["load_dataset", "PerceptionEvaluationManager::from"])
p("C19", "Boxes are expressed in the vehicle (or sensor) frame",
  "A loaded ground truth has position R^-1 (p - t) and orientation q^-1 * r, where (p, r) is the annotation's global pose and (t, q) the ego pose of the LiDAR record it is loaded with. Boxes requested in the sensor frame are further transformed by the inverse of that sensor's calibration in the same way, so transforming back recovers the annotation, and relative distances and headings between boxes are preserved.",
  ["inputs"], "all ego poses, calibrations and annotation poses",
  "No test looks at a loaded pose.",
  ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/box.rs", "src/utils/math.rs", "src/dataset.rs"],
  [("NuScenes::get_sample_data", "src/dataset/nuscenes.rs"), ("NuScenesBox::translate_inv / rotate_inv", "src/dataset/nuscenes/box.rs")],
  observe=["load_dataset", "NuScenes::get_sample_data"])
p("C20", "Dataset navigation follows the recorded relations",
  "In a loaded dataset, each table's iterator yields every record exactly once, those of ego poses, samples, sensor records and scenes in chronological order. Following a relation (sample to scene, annotations, sensor data, previous, next; annotation to sample, instance, attributes, previous, next; instance to category and annotations; scene to log and samples; sensor record to sample, ego pose, calibration; calibration to sensor) reaches exactly the recorded records, chains in chain order.",
  ["inputs"], "all consistent datasets and all navigation paths",
  "No test navigates a dataset.",
  ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/iter.rs", "src/dataset/nuscenes/iter_impl", "src/dataset/nuscenes/internal.rs"],
  [("*_iter methods", "src/dataset/nuscenes.rs"), ("WithDataset relations", "src/dataset/nuscenes/iter_impl")],
  observe=["NuScenes iterators", "WithDataset methods"])
p("C21", "Records, timestamps and tokens survive a round trip exactly",
  "Any table record written out and read back is the same record, and reading a record gives each field its written value, empty optional links, log files and camera intrinsics included. A timestamp of t microseconds reads as exactly t microseconds after the epoch, and a token is exactly 16 bytes written as 32 hex digits, any other text being rejected with an error.",
  ["inputs"], "all records, all integral microsecond timestamps of the recording era, all tokens and near-tokens",
  "Only the fixture is parsed and nothing is compared or written.",
  ["src/dataset/nuscenes/schema.rs"], [("timestamp_serde, long_token_serde, short_token_serde, opt_long_token_serde, opt_string_serde, logfile_serde, camera_intrinsic_serde", "src/dataset/nuscenes/schema.rs")],
  observe=["serde of schema records", "LongToken / ShortToken TryFrom and Display"])
p("C22", "A scenario file is read faithfully or refused with an error",
  "Building the configuration from a well-formed scenario that names one dataset yields that dataset's path and version, the task, the frame, the result, log and visualization directories under the given result directory, the raw-data flag, and filter and score parameters that act as written. A scenario that is missing, truncated, malformed, lacks a required field, names an unknown task or frame, or names no dataset is refused with an error, without panicking.",
  ["inputs", "fault_sequences"], "all scenario files: every combination of field values, every field missing or ill-typed, every truncation",
  "Tests build one well-formed scenario.",
  ["src/config.rs", "src/config/schema.rs"], [("PerceptionEvaluationConfig::from, load_yaml", "src/config.rs"), ("ConfigParams and task/frame deserializers", "src/config/schema.rs")],
  observe=["PerceptionEvaluationConfig::from"])
p("C23", "Configuring can be repeated in one process and logs go to the latest place",
  "Configurations can be built, and logging configured, any number of times in one process, each attempt succeeding as it would have first, and failed attempts not preventing later ones. After each successful one, messages of the chosen level (debug, info, warn, error) or more severe, and only those, are appended to output.log in the latest log directory, and files of earlier directories are no longer written.",
  ["histories"], "all sequences of configuring (good and bad scenarios, directories, levels) and logging in one process",
  "Each doc-test runs in its own process and configures once.",
  ["src/utils/logger.rs", "src/config.rs"], [("configure_logger", "src/utils/logger.rs"), ("PerceptionEvaluationConfig::from", "src/config.rs")],
  state=[("process-wide logger", "appender and level currently installed", "src/utils/logger.rs")],
  observe=["output.log files", "return values"])
p("C24", "Label names map totally and case-insensitively; thresholds follow their label",
  "Every documented label name and synonym converts to its label regardless of letter case, every other name converts to Unknown, and converting a list keeps its length and order; an unknown naming convention is an error. The threshold looked up for a label is the one at that label's first position in the target list, and there is none exactly when the label is not listed.",
  ["inputs"], "all names, letter cases, label lists and threshold lists",
  "Tests convert a handful of lower-case names and look up the first label.",
  ["src/label.rs", "src/threshold.rs"], [("LabelConverter::new / convert, convert_labels", "src/label.rs"), ("get_label_threshold, LabelThreshold::get_threshold", "src/threshold.rs")],
  observe=["LabelConverter", "convert_labels", "get_label_threshold", "LabelThreshold"])
p("C25", "Task and frame names parse and print consistently",
  "Every task and every frame is accepted in its CamelCase and its snake_case spelling, prints as its CamelCase spelling, and what is printed parses back to the same value; distinct values print differently. Any other text is an error, and every task is exactly one of 3D or 2D.",
  ["inputs"], "all names within edit distance 2 of a valid spelling and all short strings",
  "Tests parse one task name.",
  ["src/evaluation_task.rs", "src/frame_id.rs"], [("FromStr and Display of EvaluationTask, set_task", "src/evaluation_task.rs"), ("FromStr and Display of FrameID", "src/frame_id.rs")],
  observe=["FromStr / Display"])
p("C26", "A LiDAR file loads as exactly its points, or is refused",
  "Loading a binary LiDAR record stored in a lidar, LIDAR_TOP or LIDAR_CONCAT directory whose file consists of n > 0 points of five little-endian 32-bit floats yields an n x 5 matrix whose i-th row is the i-th point of the file, bit for bit. A file whose size is not a multiple of 20 bytes, or that cannot be opened, is refused with an error, and the raw bytes of a record are returned exactly.",
  ["inputs", "fault_sequences"], "all file contents and every truncation length",
  "No test loads sensor data.",
  ["src/dataset/nuscenes/iter_impl/sample_data.rs"], [("WithDataset<SampleData>::load, load_raw, open", "src/dataset/nuscenes/iter_impl/sample_data.rs")],
  observe=["WithDataset<SampleData>::load / load_raw"])
p("C27", "The same inputs give the same evaluation, byte for byte",
  "Loading the same dataset again, in the same or another process, yields the same frames with the same objects in the same order, and evaluating the same history yields the same results in the same order and a byte-identical score report. No outcome depends on hash seeds or on what was evaluated before.",
  ["histories", "inputs"], "all datasets and histories, repeated with fresh hash seeds",
  "A test runs each thing once; the nondeterminism comes from randomly seeded hash maps.",
  ["src/dataset/nuscenes.rs", "src/metrics/detection.rs", "src/manager.rs"], [("grouping and sorting in NuScenes::load", "src/dataset/nuscenes.rs"), ("scores map of DetectionMetricsScore", "src/metrics/detection.rs")],
  observe=["load_dataset", "Display of MetricsScore"])
p("C28", "Evaluating ground truth against itself is perfect, end to end",
  "For any dataset that loads, feeding each loaded frame's ground truths back as estimates for that frame (found by its own timestamp) gives only true positives, no false positives and no missed objects, and AP = APH = 1 for every target label that has a ground truth passing the filter, under both distance criteria. This holds whatever the ego poses, headings, label mix, number of scenes and frames without objects, provided objects of a frame have distinct centres and the filter sets no point-count or ID condition.",
  ["inputs", "histories"], "all consistent datasets with frames at least 1 us apart and all positive distance thresholds",
  "The detection example does this on one object and asserts nothing (it printed 0.000 where 1.000 is right).",
  ["examples/detection.rs", "src/manager.rs", "src/dataset.rs", "src/metrics/detection.rs", "src/result"],
  [("whole pipeline", "src/manager.rs")], observe=["PerceptionEvaluationManager", "Display of MetricsScore"])

p("C29", "A report names the criteria it applied, and verdicts follow them",
  "A score report has one section for the centre-distance and then one for the plane-distance criterion; each section has one column per target label in configured order, headed by the label and by the threshold with which that label's pairs were judged in this section, with the rows AP and APH and the means mAP and mAPH over the columns. The manager's own frame verdicts (TP, FP, FN) are those of the plane-distance criterion with its configured thresholds, independent of the centre-distance and IoU thresholds.",
  ["configurations", "inputs"], "all target lists, per-label thresholds of each criterion, and scenes that separate the criteria",
  "The example prints one report, and nothing reads what it says.",
  ["src/manager.rs", "src/metrics.rs", "src/metrics/detection.rs"], [("add_frame_result, get_metrics_score", "src/manager.rs"), ("MetricsScore::evaluate_detection", "src/metrics.rs"), ("Display of the score report", "src/metrics/detection.rs")],
  observe=["PerceptionEvaluationManager::frame_results", "Display of MetricsScore"])
p("C30", "Camera images load as their pixels, or are refused",
  "Loading an image record yields the picture of the file: pixel for pixel for PNG, within coding accuracy for JPEG, with the size of the file's picture. A missing, empty or non-image file and a cut or damaged PNG are refused with an error and never yield another picture or a panic. Raw bytes are returned exactly, and a binary record in a directory that is no LiDAR directory is refused.",
  ["inputs", "fault_sequences"], "all pictures, every truncation length and every damaged byte",
  "No test loads sensor data.",
  ["src/dataset/nuscenes/iter_impl/sample_data.rs"], [("WithDataset<SampleData>::load, load_raw, open", "src/dataset/nuscenes/iter_impl/sample_data.rs")],
  observe=["WithDataset<SampleData>::load / load_raw"])
p("C31", "Datasets and scenarios are only read",
  "No sequence of loading, iterating, evaluating and reporting operations, successful or refused, changes (in content, permission or time of modification), adds or removes a file of the dataset, the scenario or anywhere else below the working directory, except the log file in the configured log directory.",
  ["histories"], "all operation sequences, on sound and on damaged datasets",
  "Tests look at return values, not at the files left behind, and run single operations.",
  ["src/dataset.rs", "src/dataset/nuscenes.rs", "src/config.rs", "src/utils/logger.rs"], [("file access", "src/dataset/nuscenes.rs"), ("log directory", "src/utils/logger.rs")],
  observe=["directory trees before and after"])
p("C32", "Evaluations do not influence one another",
  "When several evaluations (configuration, manager, history) are in progress at once, in one thread or in threads of their own, each operation of each evaluation returns what it returns when that evaluation runs alone, however their operations are interleaved.",
  ["schedules", "histories"], "all interleavings of the operations of two and three evaluations",
  "Each test runs one evaluation; sharing shows only in an interleaving of two.",
  ["src/manager.rs", "src/metrics.rs", "src/metrics/detection.rs", "src/dataset.rs"], [("state of an evaluation", "src/manager.rs")],
  observe=["frame_results", "Display of MetricsScore", "get_frame_ground_truth"])
p("C33", "Evaluation is total: it never panics, whatever the numbers",
  "Pairing, filtering, verdicts under all four matching modes, box geometry and scoring return normally for objects with any numbers in their position, size, orientation, confidence, velocity and point count, including NaN, infinities, zeros, huge and tiny values and quaternions that are no rotation, and with any numbers as reaches, point limits and thresholds and any list of target labels. Every estimate still gets exactly one result, every result of a target label exactly one verdict, and every reported score lies in [0, 1], or is NaN for a label without any object (or, for APH, where an orientation has no heading).",
  ["inputs"], "all f64 values in the fields of the objects and in the parameters",
  "Tests use ordinary numbers; estimates come from a perception stack that may emit NaN.",
  ["src/matching.rs", "src/result/object.rs", "src/result/frame.rs", "src/metrics/detection.rs", "src/utils/math.rs"], [("matching scores", "src/matching.rs"), ("pairing", "src/result/object.rs"), ("ranking and interpolation", "src/metrics/detection.rs")],
  observe=["no panic", "frame results", "Display of MetricsScore"])
p("C34", "Asking a dataset for one record answers for that record, or refuses",
  "The box asked for by annotation token shows that annotation: its global position, orientation and size, LiDAR point count, instance and the name of its instance's category. The path of a sensor record is the dataset directory followed by the record's file name, also when it comes with boxes, which are those of all annotations of its sample; opened or read raw, it gives exactly that file's bytes. A log opens its recorded log file, or nothing where none is recorded, and a map's logs are those its record names, in order. A token that is not in the table asked is refused with an error.",
  ["inputs"], "all consistent datasets, all tokens in and out of them, all file names and states of the files",
  "No test asks a dataset for a record.",
  ["src/dataset/nuscenes.rs", "src/dataset/nuscenes/iter_impl"], [("get_box, get_boxes, get_sample_data, get_sample_data_path", "src/dataset/nuscenes.rs"), ("WithDataset<Log>::open, WithDataset<Map>::log_iter, WithDataset<SampleData>::open", "src/dataset/nuscenes/iter_impl")],
  observe=["NuScenes::get_box, get_boxes, get_sample_data, get_sample_data_path", "WithDataset::open"])

p("C35", "Objects and frames are compared and printed by their values",
  "Two objects are equal exactly when time, frame, position, orientation and label are, two object states exactly when position, orientation, size and velocity are, and two ground-truth frames exactly when their times and their objects, in order, are; equality holds both ways. What an object or its state prints names each of its fields once, with numbers that read back as exactly the stored ones; a label and an object's label name print as the label, and a frame prints its time and number of objects.",
  ["inputs"], "all values of every field of an object, all pairs of objects and of frames",
  "Equality and formatting are used by tests rather than tested; a field left out shows only on objects that differ in it alone.",
  ["src/object/object3d.rs", "src/dataset.rs", "src/label.rs"], [("PartialEq and Display of DynamicObject, ObjectState", "src/object/object3d.rs"), ("FrameGroundTruth", "src/dataset.rs"), ("Label", "src/label.rs")],
  observe=["==, Display of DynamicObject, ObjectState, FrameGroundTruth, Label"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
