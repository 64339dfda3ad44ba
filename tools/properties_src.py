"""Source of /verif/properties.jsonl.  Run: python3 tools/properties_src.py > properties.jsonl"""
import json
M = "src/waymo_open_dataset/metrics/"
G = "src/waymo_open_dataset/math/"
U = "src/waymo_open_dataset/utils/"
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), **kw):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

# ---------------------------------------------------------------- metrics
prop("M01", "The assignment solver returns an optimal perfect matching",
 "For every square matrix of non-negative integer weights, the assignment returned is a permutation and no other permutation has a larger total weight. The dual-returning variant also returns labels that dominate every edge and sum exactly to the weight of the returned matching.",
 "all n x n matrices of non-negative weights, ties and zero rows included",
 "The tests solve a handful of fixed matrices; optimality is a for-all over matrices and over all n! alternatives, and the slack bookkeeping only goes wrong for particular orders of augmentation.",
 [M+"hungarian.cc"], [("augmenting path search with slack updates", "metrics/hungarian.cc Hungarian")])
prop("M02", "Matching is one-to-one, mutually inverse and honours thresholds",
 "For every set of predictions, ground truths, types, subsets and overlaps, both matchers report each prediction and each ground truth at most once, the two returned arrays are sized like the subsets and are each other's inverse (-1 for unmatched), and a matched pair has overlap of at least the threshold configured for its type. Reusing the matcher or the output vectors for a later call does not change the result.",
 "all overlap matrices, types, thresholds, subsets (order and content), and call histories on one matcher",
 "Tests use one or two fixed overlap tables with the identity subset and fresh outputs.",
 [M+"matcher.cc", M+"matcher.h"], [("threshold gate", "metrics/matcher.cc Matcher::CanMatch"), ("index mapping", "metrics/matcher.cc HungarianMatcher::Match, ScoreFirstMatcher::Match")], over=("inputs","histories"))
prop("M03", "The optimal matcher maximises total overlap over admissible pairs",
 "For every overlap matrix, threshold and choice of prediction and ground-truth subsets (more predictions than ground truths or fewer), the total quantised overlap of the pairs reported by the Hungarian matcher equals the maximum over all one-to-one sets of admissible pairs.",
 "all overlap matrices and subsets up to the bound",
 "Optimality over every alternative matching, and in the presence of padding for rectangular problems and non-identity subsets, is not reachable with a few fixed tables.",
 [M+"matcher.cc", M+"hungarian.cc"], [("padded square assignment", "metrics/matcher.cc HungarianMatcher::Match")])
prop("M04", "The score-first matcher is greedy by score, then by overlap",
 "For every set of scores, overlaps and subsets, the score-first matcher processes predictions in descending score and gives each the admissible, still unmatched ground truth with which it has the highest overlap, leaving it unmatched only when no admissible ground truth remains.",
 "all scores, overlap matrices and subsets up to the bound",
 "The only tests use the identity subset, where subset positions and object indices coincide.",
 [M+"matcher.cc"], [("greedy loop", "metrics/matcher.cc ScoreFirstMatcher::Match")])
prop("M05", "IoU of boxes is a bounded, symmetric, exact overlap ratio",
 "For every pair of boxes, upright or seen from above, turned or axis-aligned, IoU lies in [0,1], is the same when the boxes are swapped, equals intersection over union up to rounding, is 1 for a box with itself and 0 for disjoint boxes (including boxes disjoint only vertically). Boxes with a side of at most 1 cm (of the sides used) or at least 1000 km overlap nothing, and the batched form agrees with the single form.",
 "all second boxes on the grid within the bound against a family of first boxes and headings",
 "A rational function of up to 14 real inputs with a case split per relative placement; tests evaluate a few placements.",
 [M+"iou.cc", G+"polygon2d.cc", G+"box2d.cc"], [("box IoU", "metrics/iou.cc ComputeIoU"), ("polygon clipping", "math/polygon2d.cc ComputeIntersectionArea")])
prop("M06", "Detection counts partition predictions and ground truths",
 "At every score cutoff of every breakdown and difficulty level, every eligible ground truth (in the breakdown and at most as hard as the level) is either matched or counted as a false negative, and every prediction at or above the cutoff is counted at most once, as a true positive when matched to a ground truth in the breakdown, as a false positive when unmatched outside no-label zones, and not at all otherwise. Matched pairs whose heading accuracy is below the configured minimum do not count as matches, heading-accuracy sums add up over true positives, and per-frame details list exactly the objects counted.",
 "all scores, cutoffs, types, difficulty levels and overlaps up to the bound",
 "Tests check sums for fixed frames; the guarantee is over every combination of cutoff ties, difficulty and type.",
 [M+"detection_metrics.cc", M+"metrics_utils.cc"], [("per cutoff counting", "metrics/detection_metrics.cc ComputeDetectionMeasurementPerBreakdownShard"), ("TP/FP/FN predicates", "metrics/metrics_utils.cc IsTP/IsFP/IsDetectionFN")])
prop("M07", "Merging per-frame detection measurements is plain addition",
 "Merging the measurements of any frames gives, for every breakdown, difficulty and cutoff, exactly the sum of the frames' TP, FP and FN counts and of their weighted sums together with every frame's details, independently of the order and grouping of the frames. Merging drops and invents nothing, and the metrics of several frames equal the metrics of their merged measurements.",
 "all per-frame measurements and all merge orders",
 "A for-all over histories of frames and orders; tests merge one fixed pair.",
 [M+"detection_metrics.cc"], [("merge", "metrics/detection_metrics.cc MergeDetectionMeasurements")], over=("inputs","histories"))
prop("M08", "Average precision is a bounded, monotone envelope area",
 "For every set of counts per cutoff, precision and recall (plain, heading-weighted and affinity-weighted) are the stated ratios with zero in place of a division by zero or of values below the configured minimum, every mean average precision lies in [0,1] and equals the area under the interpolated, non-increasing precision-recall curve with recall gaps handled as configured, and weighting never raises it. The order of samples does not matter, and an empty or all-zero-recall curve yields 0.",
 "all precision/recall samples and count tables up to the bound",
 "Tests evaluate three fixed curves; the area depends on the order of recalls, ties and gaps.",
 [M+"metrics_utils.cc", M+"detection_metrics.cc"], [("envelope", "metrics/metrics_utils.cc ComputeMeanAveragePrecision"), ("metrics from counts", "metrics/detection_metrics.cc ToDetectionMetrics")])
prop("M09", "Breakdown shards are total, in range, and named consistently",
 "For every object every breakdown generator returns either no shard or a shard inside its declared range, exactly following the documented boundaries for type, range, size, velocity and camera; velocity and camera shards are given to ground truths only and a camera without a shard gives none. Shard names are unique, and the breakdown-name list generated from a configuration has one entry per generator, shard and difficulty (and, for motion, step) in the order in which metrics are produced.",
 "all object positions, sizes, headings, velocities, types and configurations within the bound",
 "Behaviour at the exact boundaries and for every generator/type/difficulty combination; tests pick a single point per shard.",
 [M+"breakdown_generator.cc", M+"config_util.cc"], [("Shard/ShardName", "metrics/breakdown_generator.cc"), ("name list", "metrics/config_util.cc GetBreakdownNamesFromConfig")], over=("inputs","configurations"))
prop("M10", "Per-breakdown subsets contain exactly the objects they should",
 "For every configuration and every set of objects, the subset evaluated for a breakdown shard and difficulty level contains exactly the ground truths whose shard matches, and exactly the predictions whose shard matches (all predictions of the right type for shards that only ground truths can be assigned to), in input order and split consistently by score cutoff.",
 "all objects, scores, cutoffs and configurations up to the bound",
 "Tests check two configurations with a few objects each.",
 [M+"metrics_utils.cc"], [("subset construction", "metrics/metrics_utils.cc BuildSubsets")], over=("inputs","configurations"))
prop("M11", "Score cutoffs partition the sorted scores evenly",
 "For every list of prediction scores and every requested number of cutoffs at least two, the cutoffs are non-decreasing, start at the lowest score, end at 1, lie in [0,1] in between and split the sorted scores into equally large parts up to one; with no more scores than cutoffs they are spread uniformly over [0,1], and a single cutoff is 0. Estimating cutoffs over frames or scenes uses exactly the scores of all predictions and configured cutoffs are left alone.",
 "all score lists, cutoff counts and frame partitions",
 "Only one list is tested; the tracking variant's per-scene loop is not tested with frames of different sizes.",
 [M+"metrics_utils.cc", M+"detection_metrics.cc", M+"tracking_metrics.cc"], [("cutoffs", "metrics/metrics_utils.cc DecideScoreCutoffs"), ("estimation", "metrics/{detection,tracking}_metrics.cc EstimateScoreCutoffs")])
prop("M12", "Tracking counts conserve objects in every frame",
 "In every frame of every scene and at every cutoff, each eligible ground truth is either matched or a miss and each prediction is matched, a false positive, or ignored (overlapping a no-label zone or matched to an ineligible ground truth). Mismatches never exceed matches, the matching cost is the sum of (1 - overlap) over matches, the counts of a scene are the sums over its frames, and the details list the matched pairs and every unmatched object of each frame.",
 "all sequences of frames with arbitrary ids, overlaps and difficulty up to the bound",
 "The tracker carries state between frames, so the property ranges over histories; tests replay a few short hand-written histories.",
 [M+"mot.cc", M+"tracking_metrics.cc"], [("per-frame evaluation", "metrics/mot.cc MOT::Eval")], over=("inputs","histories"))
prop("M13", "Identity switches are counted exactly when a track changes partner",
 "An identity mismatch is counted for a ground-truth track in a frame exactly when it is matched to another predicted track than at its previous match (however many frames ago), or its predicted track was previously matched to another ground truth. A pair matched most recently stays matched while both objects are present and still admissible, and consistently relabelling predicted tracks changes no count.",
 "all histories of frames up to the bound, all id assignments",
 "Quantifies over histories, including gaps and swaps, and over all relabellings; tests have two or three fixed histories.",
 [M+"mot.cc"], [("sticky pre-matching and mismatch bookkeeping", "metrics/mot.cc MOT::Eval")], over=("inputs","histories"))
prop("M14", "Tracking summary scores follow their definitions",
 "For every table of counts, miss, mismatch and false-positive ratios are the counts divided by the number of ground truths, MOTA is one minus their sum (the best positive value over the cutoffs is the one reported, the lowest cutoff winning ties), MOTP is the average matching cost, and nothing is divided by zero. Merging the measurements of several scenes adds every count and keeps every detail per breakdown and cutoff, in any order.",
 "all count tables and merge orders",
 "Arithmetic over every table of counts, zeros included; tests use one scene.",
 [M+"tracking_metrics.cc"], [("merge and ratios", "metrics/tracking_metrics.cc MergeTrackingMeasurements, ToTrackingMetrics")], over=("inputs","histories"))
prop("M15", 'Segmentation mIoU follows the confusion counts exactly',
 'For every non-empty list of classes and every set of labelled points, the intersection of a listed class is the number of points where truth and prediction are both that class and its union the number of points whose truth is listed and where truth or prediction is that class; points whose true label is not listed count nowhere. Every per-class IoU is intersection over union (zero when the union is empty), the mean IoU is their average, and all lie in [0,1]. Merging results of frames adds the counts exactly for any split, order and size of counts, and does not depend on the order of points.',
 'all label arrays, class lists and splits within the bound',
 'The existing tests check fixed arrays; splits, class lists, unlisted labels and large counts are a product the tests do not sample.',
 [M+"segmentation_metrics.cc", M+"segmentation_metrics.h"], [("confusion update, merge and IoU", "metrics/segmentation_metrics.cc")], over=("inputs","histories"))
prop("M16", "Longitudinal-error-tolerant affinity and alignment are sound",
 "For every prediction, ground truth, sensor location and tolerance, the longitudinal affinity lies in [0,1], is 1 for zero longitudinal error and decreases linearly to 0 at the tolerance max(minimum, percentage of range). The aligned prediction keeps size and heading and stays, moves to the nearest point of its line of sight (always, only when beyond it, only when not beyond, or only when closer than it) or takes the place of the ground truth, exactly as configured. The tolerant overlap is the overlap of the aligned box in the frame of the sensor, functions and matchers made from a configuration keep it, and tolerant matching never pairs objects of zero affinity or below the threshold and weighs overlaps by affinity.",
 "all positions and tolerances within the bound",
 "A geometric statement over nine real inputs per pair with clamping at two places; tests use a few positions on the axes.",
 [M+"iou.cc", M+"matcher.cc"], [("affinity and alignment", "metrics/iou.cc ComputeLongitudinalAffinity, AlignedPredictionBox, ComputeLetIoU")])
prop("M17", "Motion evaluation rejects malformed input and never crashes on it",
 'For every metrics configuration, scenario and set of predictions, motion evaluation either succeeds or returns an error status, and never crashes or reads out of bounds. It succeeds exactly when rates, number of predictions and measurement steps are in range, the predictions name exactly the tracks to be predicted of the same scenario, every joint prediction of a group has the same objects, and every trajectory and track has the length the configuration demands. Nothing is accumulated from rejected input.',
 "all combinations of sizes, ids, steps and flags around the accepted ranges",
 "The number of malformed shapes is combinatorial; tests sample about ten.",
 [M+"motion_metrics.cc", M+"motion_metrics_utils.cc"], [("validation", "metrics/motion_metrics.cc ValidateConfig, ValidatePredictions, ValidateScenario...")], over=("inputs","configurations"))
prop("M18", "minADE and minFDE are minima over the top-K joint predictions",
 'For every ground-truth future, validity mask and set of predicted trajectories, minADE at a step is the smallest, over the first K joint predictions, of the displacement averaged over the valid steps up to that step and over the objects, and minFDE is the smallest final displacement at that step. A step is measured exactly when every object has a valid state to compare with, and states between the prediction steps do not matter.',
 "all trajectories, masks, confidences and joint sizes up to the bound",
 "Ranges over validity masks, K, and joint groups; tests use a fixed three-track scenario.",
 [M+"motion_metrics.cc"], [("minADE", "metrics/motion_metrics.cc ComputeMinAde")])
prop("M19", "Miss rate applies the documented lateral and longitudinal thresholds",
 "A prediction set is a miss at a step exactly when every one of its first K joint predictions has some object whose error, expressed in the ground truth's heading frame and compared with thresholds scaled by its present speed, exceeds the lateral or longitudinal threshold. A miss is measured exactly when every object is valid at that step.",
 "all displacements, headings, speeds and thresholds within the bound",
 "Thresholds, speed interpolation and frame rotation give a piecewise condition; tests probe a few points.",
 [M+"motion_metrics.cc"], [("IsMiss / speed scaling", "metrics/motion_metrics.cc ComputeMissRate, IsTrajectoryMiss, SpeedScaleFactor")])
prop("M20", "Overlap rate counts predicted collisions with real objects",
 "The overlap indicator of the most confident of the first K predictions of an object (the first among equals) is set exactly when its predicted box intersects, at some step up to the measured one, the box of another object that is valid both at the prediction time and at that step. The object's own recorded box, states between the prediction steps and objects invalid at either time never count.",
 "all positions, masks and object sets within the bound",
 "Quantifies over steps, validity masks and other objects; tests use one scenario.",
 [M+"motion_metrics.cc", M+"motion_metrics_utils.cc"], [("overlap", "metrics/motion_metrics.cc ComputeOverlapRate")])
prop("M21", "Motion mAP is a bounded area with at most one TP per ground truth",
 'For every set of prediction samples the motion mean average precision is the area under the interpolated precision-recall curve averaged over the trajectory types that occur, precision and recall are those of the samples sorted by descending confidence (misses first among equals), and it lies in [0,1]. Among the first K predictions of an object at most one, the most confident within the miss thresholds, counts as a true positive. A joint prediction is counted under the type that ranks highest among its objects, whatever their order.',
 "all confidence lists, match flags and trajectory counts up to the bound",
 "Tests use three fixed curves.",
 [M+"motion_metrics.cc"], [("curve and area", "metrics/motion_metrics.cc ComputePrCurve, ComputeMeanAveragePrecision")])
prop("M22", "Trajectory types partition all valid trajectories",
 'Every trajectory with a valid present state and some valid later state is assigned exactly one trajectory type, decided by the documented thresholds on displacement, speed, heading change and lateral displacement between the present and the last valid state, and a track without a valid present or future is assigned none. Mirroring a scene left-right exchanges left and right types and moving or turning it changes nothing, away from exact ties.',
 "all start/end states within the bound",
 "Nested thresholds over six reals; tests sample one trajectory per type.",
 [M+"motion_metrics_utils.cc"], [("classification", "metrics/motion_metrics_utils.cc ClassifyTrack")])
prop("M23", "Motion statistics accumulate and average per bucket exactly",
 'Accumulating the statistics of scenarios in any grouping yields identical sums, counts and samples per object type and measurement step, reported means are sum over count (zero without measurements), and exactly one entry is reported per object type and step present. The list of breakdown names has one name per type and step, in the order of the configuration, and evaluating a set of scenarios gives the averages over all of them, or an error when one is missing.',
 "all statistics and merge orders within the bound",
 "Over histories and configurations; tests accumulate one scenario.",
 [M+"motion_metrics.cc", M+"config_util.cc"], [("accumulate", "metrics/motion_metrics.cc MeanStats/BucketedMetricsStats::Accumulate"), ("names", "metrics/config_util.cc GetBreakdownNamesFromMotionConfig")], over=("inputs","histories","configurations"))
prop("M24", 'Motion confidences are normalised and submissions keep every value',
 'For non-negative confidences the normalised confidences of a prediction are non-negative, sum to one, are proportional to the inputs (uniform when all are zero) and so preserve their order. Converting a challenge submission keeps every object, joint prediction, trajectory, sample and confidence in order or returns an error, and a submission check accepts exactly the number of objects its challenge demands.',
 "all confidence vectors and submissions within the bound",
 "Tests cover one submission.",
 [M+"motion_metrics_utils.cc"], [("normalisation/conversion", "metrics/motion_metrics_utils.cc GetNormalizedConfidences, ConvertChallengePredictions")])
prop("M25", "Speed estimation and heading accuracy follow their definitions",
 "Heading accuracy of a matched pair lies in [0,1], is 1 for equal headings, falls linearly with the wrapped absolute heading difference to 0 at half a turn, and ignores full turns. The ground truth credited for a prediction is the one with the largest overlap reaching the threshold, and a predicted object's estimated speed is that of the nearest ground truth of its frame (zero when there is none), leaving everything else in it unchanged.",
 "all heading pairs and overlap tables within the bound",
 "Wrap-around at any multiple of pi and ties; tests check a few values.",
 [M+"metrics_utils.cc"], [("heading accuracy", "metrics/metrics_utils.cc ComputeHeadingAccuracy"), ("largest IoU", "metrics/metrics_utils.cc FindGTWithLargestIoU")])
# ---------------------------------------------------------------- geometry
prop("G01", "Convex polygon intersection area is exact and consistent",
 "For every pair of convex polygons the intersection area lies between 0 and the smaller area, is symmetric, equals the area of the polygon for a polygon with itself, is zero for disjoint polygons, equals the smaller area under containment, and equals the true area of overlap up to rounding.",
 "a family of pairs of convex polygons with the second one anywhere on the grid within the bound",
 "Clipping has a case per pair of edges including touching and collinear edges; tests cover a dozen placements.",
 [G+"polygon2d.cc", G+"polygon2d.h"], [("clipping", "math/polygon2d.cc Polygon2d::ComputeIntersectionArea, ShrinkToContent")])
prop("G02", 'Segment predicates and distances are geometrically exact',
 "For every pair of segments the combined test 'intersect or coincide' agrees with the geometric definition (touching and collinear overlap included) and the plain intersection test agrees with it for segments that are not parallel; both are symmetric and independent of endpoint order, a reported intersection point lies on both segments, and the conservative 'might intersect' test never misses an intersection. The distance from a point to a segment is the minimum over the segment, zero exactly on it and symmetric under reversal, and the side of a point, sampled points and rotated segments are the geometric ones.",
 'all second segments and points on the grid within the bound, against a family of first segments, degenerate ones included',
 'Orientation-predicate case analysis; degenerate segments and shared endpoints are barely tested.',
 [G+"segment2d.cc", G+"segment2d.h"], [("segment predicates", "math/segment2d.cc, segment2d.h")])
prop("G03", 'Axis-aligned boxes form an exact interval algebra',
 'Containment, overlap, distance, intersection area, union and shift of axis-aligned boxes agree with the point-set definition: the merged box contains both boxes and nothing smaller does, overlap is symmetric and holds exactly when a common point exists, and the distance to a point is the distance to the nearest point of the box. A box tree built from any set of boxes, however many and however inserted, returns exactly the boxes overlapping the query, each once.',
 'all boxes and points on the bounded grid, trees of up to ten boxes',
 'A for-all over boxes, points and tree shapes; tests use a few fixed ones.',
 [G+"aabox2d.h"], [("interval operations", "math/aabox2d.h AABox2d")])
prop("G04", "Angles normalise to the half-open turn and wrap exactly",
 "Normalising any finite angle yields a value in [-pi, pi) that differs from the input by a whole number of turns up to rounding, wrapping into a range lands in that half-open range and differs by a whole number of range lengths, positive modulo of integers and reals lands in [0, modulus) and is congruent, and bounding to a range is the nearest point of the range.",
 "all integers of the machine width for the stated moduli, reals within the bound",
 "Boundary values (exact multiples, negative, tiny) are a measure-zero set tests do not hit.",
 [G+"math_util.h"], [("wrapping", "math/math_util.h")])
prop("G05", 'Oriented boxes agree between corner, frame and moved views',
 'For every oriented box, its four corners are the centre plus or minus half extents along its heading in counter-clockwise order, and every way of constructing a box (centre and sizes, axis segment and width, axis-aligned box, corners) gives the same box for the same rectangle. Moving, turning or resizing a box keeps all of these consistent and changes nothing else.',
 'all centres, offsets and sizes within the bound at eight headings and four turns',
 'A for-all over placements and constructions; tests check a few boxes.',
 [G+"box2d.cc", G+"box2d.h"], [("oriented box", "math/box2d.cc")])
prop("G06", "Arbitrary-precision floats are exact under +, - and *",
 "Sums, differences and products of arbitrary-precision floats are exact, comparisons are consistent with the real values they denote, and converting a double in and out is the identity.",
 "all pairs of finite doubles",
 "A for-all over doubles; tests sample.",
 [G+"exactfloat.cc", G+"exactfloat.h"], [("big-number arithmetic", "math/exactfloat.cc")])
prop("G07", 'Polygons answer containment, area and convexity consistently',
 'For every convex polygon the area is that of the shoelace formula, a point is reported inside exactly when it lies in the polygon or on its boundary, consecutive duplicate vertices are dropped without changing the point set, the bounding box encloses exactly the vertices, and shifting moves the point set and keeps the area. A sequence of points is accepted as a convex hull exactly when it goes once, counter-clockwise, around a convex polygon.',
 'all query points on the quarter grid against polygons of 3 to 32 vertices, all quadrilaterals and sequences with vertices on the grid within the bound',
 'A for-all over vertex lists and points; polygons with many vertices take a different (logarithmic) path that the tests barely reach.',
 [G+"polygon2d.cc"], [("polygon predicates", "math/polygon2d.cc")])
# ---------------------------------------------------------------- camera
prop("K01", "Camera projection and back-projection are inverse",
 "With a global shutter, projecting the world point obtained from a pixel and a depth returns that pixel and depth within tolerance; a point in front of the camera is projected through the calibrated pinhole and documented lens model, and points with too large a distortion are placed outside the image and reported as not visible. A point behind the camera is never visible, and otherwise a point is reported as visible exactly when its pixel is within [0,width) x [0,height) or bounds are not checked.",
 "all pixels, depths and poses in the bound",
 "Tests check one calibration and a few points.",
 ["src/waymo_open_dataset/wdl_limited/camera/camera_model.cc"], [("projection", "wdl_limited/camera/camera_model.cc WorldToImage, ImageToWorld, DirectionToImage")])
prop("K02", "Rolling-shutter projection is self-consistent in time",
 "For constant-velocity motion of the vehicle and of the point within the stated range and every readout direction, a rolling-shutter projection returns the pixel and depth at which the point is seen at the exposure time of that pixel's own line, and back-projecting that pixel at that depth returns the point. Without motion, pixel, depth and visibility are those of a global shutter, and a point behind the camera is never visible.",
 "all motions, readout directions and points in the bound",
 "Iterative solver over poses; tests check one setting.",
 ["src/waymo_open_dataset/wdl_limited/camera/camera_model.cc"], [("residual iteration", "wdl_limited/camera/camera_model.cc ComputeResidualAndJacobian")])
# ---------------------------------------------------------------- scenario conversion
prop("S01", "Converted scenarios have the fixed feature layout whatever the input",
 "For every well-formed scenario, conversion produces every declared feature with exactly the configured length (agents times steps, roadgraph samples, traffic lights times steps), independently of the number of tracks, steps, map features and lights in the scenario. Slots with nothing to hold are padding: marked invalid, and carrying no values.",
 "all combinations of scenario shapes and configured maxima around each other, all validities, up to the bound",
 "Shapes (fewer, equal, more tracks/lights/samples than slots) are combinatorial; tests use two scenarios.",
 ["src/waymo_open_dataset/data_conversion/scenario_conversion.cc"], [("feature layout", "data_conversion/scenario_conversion.cc AddTfFeatures")], over=("inputs","configurations"))
prop("S02", "Every agent state lands in its own slot with the right time and validity",
 "In a converted scenario each required agent that is valid at the current step occupies one of the first slots, ordered by id and limited to the configured number; the others follow, those nearest to the vehicle first, then those with more valid states, and only the least relevant are dropped. For every slot and step the past, current and future features equal the source state at that step exactly when that state is valid (invalid states are flagged zero and carry no values), and id, type, difficulty, prediction and interest flags belong to the same agent.",
 "all validity masks, positions, step counts, tracks, required-agent lists and slot budgets up to the bound",
 "Off-by-one in step windows only shows for particular validity patterns; tests compare one scenario.",
 ["src/waymo_open_dataset/data_conversion/scenario_conversion.cc"], [("state features", "data_conversion/scenario_conversion.cc AddStateFeatures, GetModeledAgents")])
prop("S03", "Roadgraph sampling stays within budget and keeps feature structure",
 "For every map and budget, at most the configured number of samples is emitted, each carrying the id, type and direction (unit vector to the next sample) of the feature it was taken from; lanes come first, then road lines, stop signs, crosswalks, speed bumps, road edges and the rest. A polyline is resampled at the configured spacing (straight at its ends, smooth through the source points between) up to its last point, and an area keeps every vertex with its sides divided evenly and closes on its first point.",
 "all polylines and areas on the grid, all feature kinds and types in any order, the listed spacings, all budgets up to the bound",
 "Interaction of budget, priority and interpolation; tests use one map.",
 ["src/waymo_open_dataset/data_conversion/scenario_conversion.cc"], [("sampling", "data_conversion/scenario_conversion.cc AddRoadGraphFeatures, AddInterpolatedRoadGraphSamples, AddPolygonSamples")])
prop("S04", "Traffic-light features follow the lanes through time",
 "For every sequence of dynamic map states, each traffic-light slot of a step is valid exactly when the scenario has that many controlled lanes at that step, and then carries the lane id, signal state and stop point given there. Steps without dynamic state are padding, lights beyond the configured number are dropped, and the time of every step is that of the scenario.",
 "all lane-state sequences up to the bound, all lane ids, states and stop points",
 "Lanes appearing and disappearing over time is a history property; tests have one static case.",
 ["src/waymo_open_dataset/data_conversion/scenario_conversion.cc"], [("traffic lights", "data_conversion/scenario_conversion.cc AddTrafficLightStateFeatures")], over=("inputs","histories"))
prop("S05", "Malformed scenarios give an error, not a crash",
 "For every scenario with inconsistent or short lengths, missing map geometry, out-of-range indices, duplicate ids or more required agents than slots, conversion returns an error status or a well-formed result and never reads out of bounds or aborts.",
 "all lengths, 32-bit indices and empty or repeated geometry up to the bound",
 "Malformed shapes are combinatorial; tests try three.",
 ["src/waymo_open_dataset/data_conversion/scenario_conversion.cc"], [("validation", "data_conversion/scenario_conversion.cc ValidateScenarioProto")])
# ---------------------------------------------------------------- python
prop("P01", "Range-image compression round-trips to within quantisation",
 "For every range image, decompressing a compressed image gives back the same shape and mask of non-zero pixels, and every value within half the configured quantisation precision. Compressing does not change the caller's array.",
 "all images up to the bound: values, masks, widths and precisions",
 "Run-length and delta coding break for particular mask patterns; tests use fixed arrays.",
 [U+"compression/delta_encoder.py"], [("encoder/decoder", "utils/compression/delta_encoder.py compress, decompress")])
prop("P02", "Rater feedback scores are bounded and maximal inside trust regions",
 "For every set of rater-specified trajectories, scores and predictions, the rater feedback score at each evaluated time is between the floor and the largest rater score, equals the rater's score when the prediction is inside the trust region of the best such trajectory, and decays outside it as documented with the normalised error. Padding rater trajectories or reordering raters or predictions does not change the result.",
 "all displacements, rater scores, probabilities and paddings within the bound",
 "Tests check a few numeric examples.",
 [M+"python/rater_feedback_utils.py"], [("score", "metrics/python/rater_feedback_utils.py get_rater_feedback_score")])
prop("P03", "Map plots draw every map feature once, in its own place and style",
 "For every map, each lane, road line, road edge, crosswalk, speed bump, driveway and stop sign appears in the plot with all its points in order, closed where it is an area, styled by its type, and adding other features to the map does not change or hide it.",
 "all combinations of feature kinds and subtypes up to the bound",
 "Each enum value needs its own case; tests plot a couple.",
 [U+"plot_maps.py"], [("trace construction", "utils/plot_maps.py plot_map_points, add_map_data")], over=("inputs","configurations"))
prop("P04", "Python and native breakdown names agree for every configuration",
 "For every metrics configuration, the Python list of breakdown names equals, element by element, the list of the native library, so Python results are labelled with the breakdown they were computed for.",
 "all breakdown-generator/difficulty/step configurations up to the bound",
 "Two independently written name generators over a product of configurations; tests compare neither with the other.",
 [M+"python/config_util_py.py", M+"config_util.cc"], [("name generation", "metrics/python/config_util_py.py get_breakdown_names_from_config")], over=("configurations",))
prop("P05", "Simulation submissions are accepted exactly when complete",
 "For every joint scene or submission, validation succeeds exactly when the set of simulated objects equals the required set, each once, with trajectories of exactly the required length, and the required number of rollouts is present; anything missing, extra, duplicated or of different length is rejected. The objects to simulate are those valid at the current step; those to evaluate are, when only the future is simulated, the vehicle itself and the listed ones, and otherwise all.",
 "all object-id sets, lengths and rollout counts around the required ones",
 "Combinatorial shapes of wrong submissions.",
 [U+"sim_agents/submission_specs.py"], [("validation", "utils/sim_agents/submission_specs.py validate_joint_scene, validate_scenario_rollouts")])
prop("P06", "Latency results keep exactly the real detections",
 "For every set of detector outputs, the objects file built from latency results contains one object per real detection (score at least 0.03, every given box size at least 0.01 m), in order, with its own box, score, type, context and timestamp, and nothing for padding entries or frames without detections. Image detections carry the camera whose image was the single declared input and are rejected otherwise, and so are arrays of different lengths.",
 "all output arrays up to the bound",
 "There is no unit test that runs without the full pipeline.",
 ["src/waymo_open_dataset/latency/make_objects_file_from_latency_results.py"], [("object construction", "latency/make_objects_file_from_latency_results.py make_object_list_from_subdir")])
prop("P07", "Camera token decoding and map merging preserve identity",
 "For every scenario and camera-token record, merging appends the record's camera frames in order to those of the scenario, keeps every other field and leaves both inputs as they were. Decoding a non-empty list of tokens picks for every token the codebook row it names, and rejects the list when any token lies outside the codebook.",
 "all token values and record shapes within the bound",
 "Tests use one record.",
 [U+"womd_camera_utils.py"], [("merge and lookup", "utils/womd_camera_utils.py")])
prop("P08", "Panoptic labels round-trip and keep instances distinct",
 "For every semantic and instance label map, encoding into panoptic labels and decoding gives back both maps (or reports an overflow), and remapping instance ids to global ids over images of one or more sequences never merges two instances, splits one, or touches a class.",
 "all label maps, divisors and id tables within the bound",
 "Collisions appear only when an id reaches the divisor; tests use small ids.",
 [U+"camera_segmentation_utils.py"], [("encode/decode/remap", "utils/camera_segmentation_utils.py")], over=("inputs","histories"))
prop("P09", "Tiling an image and reassembling it is the identity",
 "For every image and tile geometry accepted, cutting an image into tiles and merging them returns the image, and every pixel belongs to exactly the tiles that cover it.",
 "all image and tile sizes up to the bound",
 "Tests use fixed sizes.",
 [U+"compression/tiling.py"], [("extract and combine", "utils/compression/tiling.py extract_tiles/combine_tiles")])
prop("P10", "Object ids and simulated trajectories are sliced consistently",
 "For every set of object trajectories, selecting objects by id returns them in the requested order with all fields from the same object, slicing in time keeps all fields aligned, and building from a scenario maps invalid states to invalid entries.",
 "all id lists and slices within the bound",
 "Tests use one scenario.",
 [U+"trajectory_utils.py"], [("gather/slice", "utils/trajectory_utils.py")])
prop("P11", "Component tables round-trip every column",
 "For every component, flattening it to columns and rebuilding it gives an equal component: keys, nested fields, optional and list-valued fields included, and no two fields share a column (an absent record counts as a record of absent values). Key columns are named alike in all components, the other columns carry the component's name, and the declared table schema lists exactly these columns.",
 "all field values and presence patterns of the declared components within the bound",
 "Tests use one synthetic component.",
 ["src/waymo_open_dataset/v2/component.py"], [("flatten/unflatten", "v2/component.py Component.to_flatten_dict/from_dict")])
prop("P12", "Component joins keep exactly the rows with equal keys",
 "For every pair of component tables, merging on their shared keys yields exactly the pairs of rows with equal keys, grouped as requested, with missing sides present only when allowed as nullable.",
 "all key tables up to the bound",
 "Tests use fixed small tables.",
 ["src/waymo_open_dataset/v2/dataframe_utils.py"], [("merge", "v2/dataframe_utils.py merge")])
prop("P13", "Box, frame and pose transforms are mutually inverse",
 "For every pose and box, transforming to another frame and back returns the box, corners are consistent with centre, size and heading, a point is in a box exactly when it satisfies the box-frame inequality, and composed transforms equal the product of their matrices.",
 "all poses on exact headings and boxes within the bound",
 "Needs tensors; tests sample a few.",
 [U+"box_utils.py", U+"transform_utils.py"], [("transforms", "utils/box_utils.py, utils/transform_utils.py")])
prop("P14", "Range-image projection is inverse to point-cloud extraction",
 "For every range image and calibration in the bound, building a range image from the Cartesian points extracted from it returns the original ranges at their pixels, and encoded low-resolution features decode to within their quantisation.",
 "all range values and the listed calibrations",
 "Needs tensors; tests sample.",
 [U+"range_image_utils.py"], [("projection", "utils/range_image_utils.py")])
prop("P15", "Convex distance between boxes is exact and symmetric",
 "For every pair of convex boxes the signed distance computed through the Minkowski sum equals the Euclidean distance for disjoint boxes and minus the penetration depth for overlapping ones, and is symmetric.",
 "all boxes on exact headings within the bound",
 "Needs tensors; tests sample.",
 [U+"geometry_utils.py"], [("Minkowski distance", "utils/geometry_utils.py")])
prop("P16", "Simulation scores aggregate within bounds",
 "For every table of per-component likelihoods the aggregate realism score and the scores of the three groups are the documented weighted means and lie in [0,1]; a group without weight is reported. Aggregating over scenarios gives the mean of every figure in any order, and the weights configured for each challenge sum to one.",
 "all component scores and weights",
 "Tests use fixed numbers and need tensors.",
 ["src/waymo_open_dataset/wdl_limited/sim_agents_metrics/metrics.py"], [("aggregate", "wdl_limited/sim_agents_metrics/metrics.py")])
prop("P17", "Keypoint metrics match predictions and respect visibility",
 "For every set of keypoints and visibilities, only visible ground-truth keypoints contribute to errors, thresholds classify exactly, and scores lie in their documented range.",
 "all keypoints within the bound", "Needs tensors; tests sample.",
 [U+"../metrics/python/keypoint_metrics.py"], [("metrics", "metrics/python/keypoint_metrics.py")])
prop("P18", "Occupancy-flow grids conserve agents and warp consistently",
 "For every set of agent boxes, an occupied cell belongs to some agent's footprint, warping occupancy by zero flow is the identity, and metrics lie in their documented range.",
 "all agents and grids within the bound", "Needs tensors; tests sample.",
 [U+"occupancy_flow_grids.py", U+"occupancy_flow_metrics.py"], [("grids", "utils/occupancy_flow_*.py")])

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        print(json.dumps(p))
