"""Engine B specs: module (harness/py), parts {name: fn, args, tier, reach, shards}, bounds, assumptions, functions."""
SPECS = {}
U = "waymo_open_dataset/utils/"
SPECS["P01"] = dict(module="p01", parts={
    "row": dict(fn="roundtrip", args=dict(shape=(1, 8, 1), prec=[0.5])),
    "grid": dict(fn="roundtrip", args=dict(shape=(2, 3, 1), prec=[0.1], aslist=False)),
    "channels": dict(fn="roundtrip", args=dict(shape=(2, 2, 2), prec=[0.25, 3.0])),
    "whole": dict(fn="roundtrip", args=dict(shape=(2, 1, 3), prec=[3.0, 0.5, 1.0], kind="i")),
    "reject": dict(), "runs": dict(args=dict(n=8)),
}, functions=["delta_encoder." + x for x in "compress decompress _compute_metadata _decode_mask _rlencode _rldecode _compute_mask _compute_residual".split()],
 bounds="range images of shapes 1x8x1, 2x3x1, 2x2x2 and 2x1x3 with every pixel symbolic (dyadic grid); quantisation steps 0.1, 0.25, 0.5, 1 and 3, one or one per channel; run-length coding of every array of 8 symbols", assumptions=["serialisation of the message and zlib are lossless (their bytes pass through concretely in the native replays)", "arithmetic of the symbolic runs is exact; float rounding is covered by the native replays only"])
SPECS["P02"] = dict(module="p02", parts={
    "three": dict(fn="score", args=dict(sets=[0, 1, 2, 3, 4], which=3), shards=[{"raters": i} for i in range(5)]),
    "five": dict(fn="score", args=dict(sets=[0, 1, 2, 3, 4], which=5), shards=[{"raters": i} for i in range(5)]),
    "two": dict(fn="score", args=dict(sets=[0, 2], which=3, I=2), shards=[{"raters": i} for i in range(2)]),
    "speed": dict(), "shapes": dict(), "region": dict(),
}, functions=["rater_feedback_utils." + x for x in "get_rater_feedback_score process_rater_specified_trajectories get_lat_lng_thresholds".split()],
 bounds="1 or 2 predicted trajectories with symbolic positions at the judged time (3 s or 5 s), symbolic probabilities, 5 rater sets drawn from 8 trajectory families, symbolic initial speed", assumptions=["the power 0.1**x is an uninterpreted decaying function (monotone, Lipschitz, 1 at 0)", "rater trajectories and labels come from the fixed families", "exact arithmetic in symbolic runs"])
SPECS["P03"] = dict(module="p03", parts={
    "alone": dict(fn="plot", args=dict(first=None, others=0)),
    "mixed": dict(fn="plot", args=dict(first=None, others=1), reach=["end", "many"], shards=[{"kind": i} for i in range(7)]),
    "crowd": dict(fn="plot", args=dict(first=None, others=2), reach=["end", "many"], shards=[{"kind": i} for i in range(7)], tier="thorough"),
}, functions=["plot_maps." + x for x in "plot_map_features plot_map_points MapPoints.append_point".split()],
 bounds="maps of 1 feature of every kind, type and 0 to 3 points, optionally with 1 further feature (thorough: 2) of four kinds, in either order; coordinates and ids symbolic", assumptions=["plotly and pandas are replaced by recorders in symbolic runs; the native replays use the real ones", "the marker of a stop sign is not judged"])

SPECS["P04"] = dict(module="p04", parts={
    "single": dict(fn="names", args=dict(gens=1, levels=2)), "single3": dict(fn="names", args=dict(gens=1, levels=3), tier="thorough"), "names": dict(args=dict(gens=2, levels=1), reach=["end", "many"]), "names2": dict(fn="names", args=dict(gens=2, levels=2), reach=["end", "many"], tier="thorough"), "motion": dict(args=dict(n=3)), "unsupported": dict(),
}, functions=["config_util_py." + x for x in "get_breakdown_names_from_config get_breakdown_names_from_motion_config _get_num_breakdown_shards _get_breakdown_shard_name".split()],
 bounds="configurations of one generator with up to 2 levels (thorough 3) and of 2 generators with up to one level each (thorough 2), up to 3 (native 2) motion steps; Python and native names are each compared with one table, which settles their agreement", assumptions=["protobuf messages of symbolic runs are stand-ins built from the real descriptors"])
SPECS["P05"] = dict(module="p05", parts={
    "scene": dict(args=dict(tracks=2, trajs=2), reach=["end", "accepted"]), "scene3": dict(fn="scene", args=dict(tracks=3, trajs=3), reach=["end", "accepted"], tier="thorough"),
    "rollouts": dict(reach=["end", "accepted"]), "objects": dict(args=dict(tracks=3)), "config": dict(),
}, functions=["submission_specs." + x for x in "validate_joint_scene validate_scenario_rollouts get_sim_agent_ids get_evaluation_sim_agent_ids get_submission_config SubmissionConfig.is_valid_sim_agent".split()],
 bounds="scenarios of up to 2 (thorough and object sets: 3) objects with any distinct ids in -2..6 and any validity, up to 2 (thorough 3) trajectories with any ids and any one field of any length 0..200; 30 to 34 rollouts with at most one defective, both challenges", assumptions=["object ids of a scenario are distinct", "messages of these checks are plain objects with the fields the code reads"])
SPECS["P06"] = dict(module="p06", parts={
    "lidar": dict(fn="frame", args=dict(n=2, cols=7), reach=["end", "kept"]), "image": dict(fn="frame", args=dict(n=2, cols=4), reach=["end", "kept"]), "fields": dict(), "sizes": dict(),
}, functions=["make_objects_file_from_latency_results.make_object_list_from_subdir"],
 bounds="frames of up to 2 detections with 7- or 4-column boxes, values any multiple of 1/512 (scores 1/1024), all types, all cameras, absent, wrong and double input lists", assumptions=["reading the stored arrays is a stand-in in symbolic runs and real files in the native replays"])
SPECS["P07"] = dict(module="p07", parts={
    "fields": dict(fn="merge", args=dict(what="fields"), reach=["end", "frames"]), "frames": dict(fn="merge", args=dict(what="frames"), reach=["end", "frames"]), "embed": dict(args=dict(K=3, n=2), reach=["end", "found"]), "embed3": dict(fn="embed", args=dict(K=4, n=3), reach=["end", "found"], tier="thorough"),
}, functions=["womd_camera_utils.add_camera_tokens_to_scenario", "womd_camera_utils.get_camera_embedding_from_codebook"],
 bounds="scenarios with any subset of id, times, a track, a map feature, a light state and up to 2 camera frames; camera data of up to 2 frames of up to 2 cameras of up to 2 tokens; codebooks of up to 3 rows (thorough 4), up to 2 (3) tokens from below to above the valid range", assumptions=["protobuf messages of symbolic runs are stand-ins built from the real descriptors", "token lists are not empty"])
SPECS["P11"] = dict(module="p11", parts={
    "own": dict(reach=["end", "absent"]), "declared": dict(reach=["end", "absent"]), "keys": dict(),
}, functions=["component." + x for x in "Component.from_dict Component.to_flatten_dict Component.schema flatten_dict flatten_arrow_types unflatten_dict _column_name _remove_prefix".split()],
 bounds="every component declared for the perception data (one or all optional fields absent) and two components with nested, repeated and optional fields of equal names (every presence pattern); any leaf values; rows with the columns of up to two other components before or after, columns in declaration or reverse order", assumptions=["column storage types are opaque (the Arrow library is not installed)", "an absent record is the same as a record of absent values"])
SPECS["P09"] = dict(module="p09", parts={
    "cut": dict(args=dict(h=5, w=5, t=4), reach=["end", "padded"]), "paste": dict(args=dict(n=2, t=2), reach=["end", "rejected"]),
    "cut7": dict(fn="cut", args=dict(h=8, w=8, t=6, d=3), reach=["end", "padded"], tier="thorough"), "paste3": dict(fn="paste", args=dict(n=3, t=3), reach=["end", "rejected"], tier="thorough"),
}, functions=["compression.tiling." + x for x in "extract_tiles combine_tiles _TileShapeInfo".split()],
 bounds="images of 1-5 x 1-5 pixels (thorough 8 x 8) with 1-2 (3) channels and tiles of side 1-4 (6); tile sets of 1-2 x 1-2 (3 x 3) tiles of side 1-2 (3) with every length up to two channels; any pixel values", assumptions=["ceil, constant, pad, reshape and transpose of TensorFlow are numpy stand-ins (TensorFlow is not installed)", "mirrored padding needs an image larger than the padding, as in TensorFlow"])
SPECS["P08"] = dict(module="p08", parts={
    "code": dict(args=dict(n=2)), "protos": dict(fn="frames", args=dict(n=2, pixels=2, top=60, v2=False), reach=["end", "overflow"]),
    "tables": dict(fn="frames", args=dict(n=2, pixels=2, top=60, v2=True), reach=["end", "overflow"]),
    "plain": dict(fn="frames", args=dict(n=2, pixels=2, top=60, v2=False, remap=False, divs=(10, 30)), reach=["end", "overflow"]),
    "save": dict(args=dict(pixels=3), reach=["end", "overflow"]), "wide": dict(args=dict(n=1, pixels=2, top=2**21, v2=False, divs=(1000,))),
    "protos3": dict(fn="frames", args=dict(n=3, pixels=1, top=60, v2=False), reach=["end", "overflow"], tier="thorough"),
}, functions=["camera_segmentation_utils." + x for x in "decode_semantic_and_instance_labels_from_panoptic_label encode_semantic_and_instance_labels_to_panoptic_label decode_multi_frame_panoptic_labels_from_segmentation_labels decode_multi_frame_panoptic_labels_from_protos _remap_global_ids _iterate_over_mapping save_panoptic_label_to_proto".split()],
 bounds="label maps of two pixels with any classes up to 65535 and instances up to 10^6, six divisors; up to two images of two pixels in one or two sequences with up to two mapped instances of any global id up to 60 (thorough: three images of one pixel; evaluated with real 16-bit images also 65535 and 70001); messages and tables; four new divisors", assumptions=["PNG coding is lossless for 16-bit pixels and the few TensorFlow and scikit-image operations are stand-ins (neither is installed)", "every instance of an image with remapping is in its id table; ids are positive"])
SPECS["P16"] = dict(module="p16", parts={"overall": dict(reach=["end", "no weight"]), "dataset": dict(args=dict(n=3)), "configs": dict(), "dataset6": dict(fn="dataset", args=dict(n=6), tier="thorough")},
 functions=["sim_agents_metrics.metrics." + x for x in "_compute_metametric aggregate_metrics_to_buckets aggregate_scenario_metrics load_metrics_config".split()],
 bounds="likelihoods any k/1024 in [0,1], errors and rates any k/1024 up to 64; seven sets of weights (absent ones included); 1-3 scenarios (thorough 6) in every rotation; the weights of every challenge", assumptions=["protobuf messages of symbolic runs are stand-ins built from the real descriptors; results are compared up to 1e-5 (32-bit fields)", "the likelihoods themselves are computed by TensorFlow and not covered"])
SPECS["P10"] = dict(module="p10", parts={"pick": dict(args=dict(n=3, k=2, steps=2), reach=["end", "rejected"]), "places": dict(args=dict(n=3, k=3, steps=2)), "cut": dict(args=dict(n=2, steps=4)), "scene": dict(args=dict(n=3, steps=3)),
    "pick4": dict(fn="pick", args=dict(n=4, k=3, steps=1), reach=["end", "rejected"], tier="thorough")},
 functions=["trajectory_utils." + x for x in "ObjectTrajectories.slice_time ObjectTrajectories.gather_objects ObjectTrajectories.gather_objects_by_id ObjectTrajectories.from_scenario _arg_gather".split()],
 bounds="1-3 objects (thorough 4) of up to 4 steps with any values; up to 2 (thorough 3) ids asked for, any ids (missing and repeated ones included); up to 3 places; every slice of up to 4 steps, negative ends included", assumptions=["gather, casts, sums and products of TensorFlow are numpy stand-ins (TensorFlow is not installed)", "all tracks of a scenario have the same number of states"])
SPECS["P13"] = dict(module="p13", parts={"inside": dict(args=dict(n=2, m=1)), "corners": dict(args=dict(m=2)), "points": dict(), "chain": dict(), "boxes": dict(), "yaw": dict(), "inside12": dict(fn="inside", args=dict(n=1, m=2)), "batch": dict(), "inside2": dict(fn="inside", args=dict(n=2, m=2), tier="thorough")},
 functions=["box_utils." + x for x in "is_within_box_3d is_within_box_2d compute_num_points_in_box_3d get_upright_3d_box_corners transform_point transform_box".split()] + ["transform_utils." + x for x in "get_yaw_rotation get_yaw_rotation_2d get_rotation_matrix get_transform".split()],
 bounds="positions and translations any k/16 within 512 m, sizes any k/8 up to 32 m (zero included), box headings any k/64 within pi for the transforms and five headings for containment and corners; five rotations (three for upright boxes) in every pair and triple; one or two points, one box (thorough two)", assumptions=["tensor products, inverses, reductions and trigonometry of TensorFlow are numpy stand-ins (TensorFlow is not installed)", "arithmetic in idealised reals; results are compared up to 1e-6"])
