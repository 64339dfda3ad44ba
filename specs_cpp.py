"""Per-property build and bounds description of the C++ checks (Engine A)."""
M = "metrics/"
SPECS = {}
MATH = ["math/polygon2d.cc", "math/box2d.cc", "math/segment2d.cc"]
MATCH = [M + "matcher.cc", M + "hungarian.cc", M + "iou.cc"] + MATH
MPROTO = ["protos/metrics.proto", "protos/breakdown.proto", "label.proto"]
EM = ["end", "matched"]
SPECS["M01"] = dict(
    srcs=[M + "hungarian.cc"],
    parts={
        "n3": dict(harness="m01.cc", defs=["-DMAXN=3", "-DMAXW=1000"], bounds="n = 1..3, every entry any integer in [0,1000]"),
        "n4": dict(harness="m01.cc", defs=["-DMINN=4", "-DMAXN=4", "-DMAXW=1", "-DONLY_DUAL"], bounds_quick="n = 4, entries 0 or 1, five entries fixed", bounds_thorough="n = 4, every entry 0 or 1"),
        "n4w": dict(tier="thorough", harness="m01.cc", defs=["-DMINN=4", "-DMAXN=4", "-DMAXW=3", "-DONLY_DUAL", "-DROW3"], bounds="n = 4, entries 0..3"),
    },
    bounds="square matrices up to 3x3 with entries 0..1000; 4x4 with entries 0..1 (thorough: 0..3)")
SPECS["M02"] = dict(srcs=MATCH, protos=MPROTO, common=["pbinst.cc"], parts={
    "types": dict(harness="m02.cc", defs=["-DPROP=2", "-DNTYPES=2", "-DSCORES=1"], reach=EM, bounds="2 predictions x 2 ground truths of 2 types, overlaps and thresholds any k/16, scores any k/8, every ordered subset, both matchers"),
    "hist": dict(harness="m02.cc", defs=["-DPROP=2", "-DNTYPES=1", "-DSCORES=1", "-DHISTORY"], reach=EM, bounds_quick="2x2, one earlier call with one of two subsets into the same vectors", bounds_thorough="2x2, one earlier call with any subsets"),
    "objects": dict(harness="m02.cc", defs=["-DPROP=2", "-DNTYPES=1", "-DSCORES=1", "-DOBJECTS"], reach=EM, bounds="2x2, an earlier call on other predictions, ground truths or both (same or fewer)"),
    "objectst": dict(tier="thorough", harness="m02.cc", defs=["-DPROP=2", "-DNTYPES=2", "-DSCORES=1", "-DOBJECTS"], reach=EM, bounds="the same with two types"),
    "3x2": dict(tier="thorough", harness="m02.cc", defs=["-DPROP=2", "-DNTYPES=1", "-DSCORES=1", "-DNP=3"], reach=EM, bounds="3 predictions x 2 ground truths, one type"),
}, bounds="up to 2x2 objects (thorough 3x2), overlaps/thresholds on the 1/16 grid, histories of two calls")
SPECS["M03"] = dict(srcs=MATCH, protos=MPROTO, common=["pbinst.cc"], parts={
    "2x2": dict(harness="m02.cc", defs=["-DPROP=3", "-DNTYPES=2", "-DSCORES=0", "-DKIND=0"], reach=EM, bounds="2x2 objects of 2 types, every ordered subset"),
    "2x3": dict(harness="m02.cc", defs=["-DPROP=3", "-DNTYPES=1", "-DSCORES=0", "-DKIND=0", "-DNG=3"], reach=EM, bounds="2 predictions, 3 ground truths, every ordered subset"),
    "3x2": dict(tier="thorough", harness="m02.cc", defs=["-DPROP=3", "-DNTYPES=1", "-DSCORES=0", "-DKIND=0", "-DNP=3"], reach=EM, bounds="3 predictions, 2 ground truths, every ordered subset"),
}, bounds="up to 2x3 (thorough 3x2) objects, overlaps/thresholds any k/16")
SPECS["M04"] = dict(srcs=MATCH, protos=MPROTO, common=["pbinst.cc"], parts={
    "2x3": dict(harness="m02.cc", defs=["-DPROP=4", "-DNTYPES=1", "-DSCORES=1", "-DKIND=1", "-DNG=3"], reach=EM, bounds="2 predictions, 3 ground truths, every ordered subset"),
    "3x2": dict(harness="m02.cc", defs=["-DPROP=4", "-DNTYPES=1", "-DSCORES=1", "-DKIND=1", "-DNP=3"], reach=EM, bounds="3 predictions, 2 ground truths, every ordered subset"),
    "3x3": dict(tier="thorough", harness="m02.cc", defs=["-DPROP=4", "-DNTYPES=2", "-DSCORES=1", "-DKIND=1", "-DNP=3", "-DNG=2"], reach=EM, bounds="3x2 with two types"),
}, bounds="up to 3x2 / 2x3 objects, overlaps/thresholds any k/16, scores any k/8")
DET = MATCH + [M + "metrics_utils.cc", M + "breakdown_generator.cc", M + "detection_metrics.cc"]
DPROTO = MPROTO + ["dataset.proto"]
ED = ["end", "tp+fp", "fn"]
SPECS["M06"] = dict(srcs=DET, protos=DPROTO, common=["pbinst.cc"], parts={
    "levels": dict(harness="m06.cc", defs=["-DGEN=Breakdown::ONE_SHARD", "-DLEVELS=1", "-DHEAD=0", "-DNTYPES=1", "-DSCOREFIRST=0"], reach=ED),
    "types": dict(harness="m06.cc", defs=["-DGEN=Breakdown::OBJECT_TYPE", "-DLEVELS=0", "-DHEAD=0", "-DNTYPES=2", "-DSCOREFIRST=0", "-DNCUT=1"], reach=ED),
    "velocity": dict(harness="m06.cc", defs=["-DGEN=Breakdown::VELOCITY", "-DLEVELS=0", "-DHEAD=0", "-DNTYPES=1", "-DSCOREFIRST=0", "-DNCUT=1"], reach=ED),
    "heading": dict(harness="m06.cc", defs=["-DGEN=Breakdown::ONE_SHARD", "-DLEVELS=0", "-DHEAD=1", "-DNTYPES=1", "-DSCOREFIRST=1", "-DNCUT=1"], reach=ED),
}, bounds="two predictions, two ground truths, two score cutoffs (any k/8), overlaps any k/16, no-label-zone flags, difficulty 0..2; one-shard, type and velocity breakdowns, headings 0, pi/2, 3 with a heading threshold")
SPECS["M07"] = dict(srcs=DET, protos=DPROTO, common=["pbinst.cc"], parts={
    "merge": dict(harness="m07.cc", reach=["end", "all frames"]),
    "frames": dict(harness="m07b.cc", reach=["end", "both frames matched"]),
}, bounds="up to 4 frames, 2 breakdowns, 2 cutoffs, counts any integer up to 10^6 in every order and grouping; 2 frames with up to 2 predictions and 1 ground truth evaluated both ways")
SPECS["M08"] = dict(srcs=DET, protos=DPROTO, common=["pbinst.cc"], parts={
    "nogap": dict(harness="m08.cc", defs=["-DDELTA=1.0f", "-DPERM=1"], reach=["end", "positive recall"]),
    "gap": dict(harness="m08.cc", defs=["-DDELTA=0.25f", "-DPERM=0"], reach=["end", "positive recall"]),
    "counts": dict(harness="m08c.cc", defs=["-DPART=0"], reach=["end", "positive area"]),
    "countsh": dict(harness="m08c.cc", defs=["-DPART=1"], reach=["end", "positive area"]),
    "countsl": dict(harness="m08c.cc", defs=["-DPART=2"], reach=["end", "positive area"]),
}, bounds="up to 3 samples with precision and recall any k/8, recall step 1/4 or none; metrics from counts: two cutoffs, 0/1/3/4 (second cutoff 2) predictions and 0/1/3/4 objects, every number of matches, weighted sums any k/4")
TRK = DET + [M + "mot.cc", M + "tracking_metrics.cc"]
SPECS["M11"] = dict(srcs=TRK, protos=DPROTO, common=["pbinst.cc"], parts={
    "decide": dict(harness="m11.cc", defs=["-DMODE=0"]),
    "uniform": dict(harness="m11.cc", defs=["-DMODE=2"]),
    "detection": dict(harness="m11.cc", defs=["-DMODE=1"]),
    "tracking": dict(harness="m11.cc", defs=["-DMODE=1", "-DTRACK"]),
}, bounds="up to 4 scores any k/8 and up to 4 cutoffs; 2 frames (scenes) of up to 2 predictions")
EMM = ["end", "mismatch", "kept"]
MOTS = dict(srcs=MATCH + [M + "metrics_utils.cc", M + "breakdown_generator.cc", M + "mot.cc"], protos=DPROTO, common=["pbinst.cc"])
SPECS["M12"] = dict(MOTS, parts={
    "flags": dict(harness="m12.cc", defs=["-DNF=2", "-DFLAGS=1", "-DSCOREFIRST=0", "-DFULL1"], reach=EMM),
    "sf": dict(harness="m12.cc", defs=["-DNF=2", "-DFLAGS=0", "-DSCOREFIRST=1", "-DORDERS=2"], reach=EMM),
    "scene": dict(harness="m12s.cc", defs=["-DGEN=Breakdown::ONE_SHARD", "-DNTYPES=1"], srcs=[M + "tracking_metrics.cc"], reach=["end", "mismatch"]),
    "scenet": dict(harness="m12s.cc", defs=["-DGEN=Breakdown::OBJECT_TYPE", "-DNTYPES=2"], srcs=[M + "tracking_metrics.cc"], reach=["end", "mismatch"]),
    "flags2": dict(tier="thorough", harness="m12.cc", defs=["-DNF=2", "-DFLAGS=1", "-DSCOREFIRST=0", "-DORDERS=2"], reach=EMM),
}, bounds="two hypotheses, two objects, scenes of 2 frames; overlaps any k/8, any presence of objects per frame, no-label-zone flags, difficulty 0..2 per object and frame, both levels; both matchers; two hash iteration orders")
SPECS["M13"] = dict(MOTS, parts={
    "h3": dict(harness="m12.cc", defs=["-DNF=3", "-DFLAGS=0", "-DSCOREFIRST=0", "-DDEN=2", "-DFULL1", "-DDIAG1"], reach=EMM),
    "relabel": dict(harness="m12.cc", defs=["-DNF=3", "-DFLAGS=0", "-DSCOREFIRST=0", "-DRELABEL=1", "-DDEN=3", "-DFULL1"], reach=["end", "mismatch"]),
    "h3f": dict(tier="thorough", harness="m12.cc", defs=["-DNF=3", "-DFLAGS=0", "-DSCOREFIRST=0", "-DDEN=3", "-DORDERS=2"], reach=EMM),
    "relabelf": dict(tier="thorough", harness="m12.cc", defs=["-DNF=3", "-DFLAGS=0", "-DSCOREFIRST=0", "-DRELABEL=1", "-DDEN=3", "-DORDERS=2"], reach=["end", "mismatch"]),
}, bounds="two hypotheses, two objects, scenes of 3 frames (quick: everything present in the first frame, any presence later; thorough: any presence); overlaps any k/4 (relabelling: k/8, ties excluded)")
SPECS["M14"] = dict(srcs=TRK, protos=DPROTO, common=["pbinst.cc"], parts={
    "merge": dict(harness="m14.cc", defs=["-DMERGE=1", "-DNB=2"]),
    "merge3": dict(tier="thorough", harness="m14.cc", defs=["-DMERGE=1", "-DNS=3"]),
    "scores": dict(harness="m14.cc", defs=["-DMERGE=0"], reach=["end", "later cutoff"]),
    "scores3": dict(tier="thorough", harness="m14.cc", defs=["-DMERGE=0", "-DNCUT=3"], reach=["end", "later cutoff"]),
}, bounds="up to 2 scenes (thorough 3) and an empty one, 2 breakdowns, 2 cutoffs, counts any integer up to 10^6 (scores: counts up to 40, 0/1/3/4/10 ground truths), costs any k/16")
BRK = [M + "breakdown_generator.cc"]
MMPROTO = DPROTO + ["protos/motion_metrics.proto", "protos/scenario.proto"]
SPECS["M09"] = dict(srcs=BRK + MATCH + [M + "metrics_utils.cc", M + "config_util.cc"], protos=MMPROTO, common=["pbinst.cc"], parts={
    n: dict(harness="m09.cc", defs=["-DMODE=%d" % i]) for i, n in enumerate(["one", "type", "range", "velocity", "sign", "size", "camera", "names"])},
  bounds="object types 0..4; centres any (k/4)^3 within 64 m, sizes any k/8 up to 10 m, velocities any k/16 up to 16 m/s per axis (present or missing), camera names all, directions of integer centres within 5 m; name lists of up to 2 generators with any levels and up to 2 motion steps")
SPECS["P04"] = dict(srcs=SPECS["M09"]["srcs"], protos=MMPROTO, common=["pbinst.cc"], parts={"native": dict(harness="m09.cc", defs=["-DMODE=7"])},
  bounds="native: configurations of up to 2 generators with any levels and up to 2 motion steps")
SPECS["M10"] = dict(srcs=BRK + MATCH + [M + "metrics_utils.cc"], protos=DPROTO, common=["pbinst.cc"], parts={
    "sub": dict(harness="m10.cc", defs=["-DNO=2"], reach=["end", "two"]),
    "sub3": dict(tier="thorough", harness="m10.cc", defs=["-DNO=3"], reach=["end", "two"]),
}, bounds="up to 2 (thorough 3) objects of 4 kinds, up to 2 cutoffs, scores and cutoffs any k/8, every generator alone and two pairs, ground truth or prediction, detection or tracking")
SPECS["M25"] = dict(srcs=MATCH + BRK + [M + "metrics_utils.cc"], protos=DPROTO, common=["pbinst.cc"], parts={
    "heading": dict(harness="m25.cc", defs=["-DMODE=0", "-DHRANGE=4", "-DTURNS=2"], reach=["end", "aligned"]),
    "headingw": dict(tier="thorough", harness="m25.cc", defs=["-DMODE=0", "-DHRANGE=20", "-DTURNS=7"], reach=["end", "aligned"]),
    "largest": dict(harness="m25.cc", defs=["-DMODE=1"], reach=["end", "aligned"]),
    "speed": dict(harness="m25.cc", defs=["-DMODE=2"], reach=["end", "aligned"]),
}, bounds="headings any k/64 in [-4,4] (thorough [-20,20]); 3 ground truths in any ordered subset with overlaps and threshold any k/16; up to 2 predictions, 2 ground truths, 2 frames at integer positions")
SPECS["M15"] = dict(srcs=[M + "segmentation_metrics.cc", "common/status.cc"], protos=MPROTO + ["protos/segmentation_metrics.proto"], common=["pbinst.cc"], parts={
    "labels": dict(harness="m15.cc", defs=["-DMODE=0", "-DNP=2"], reach=["end", "partial overlap"]),
    "labels3": dict(tier="thorough", harness="m15.cc", defs=["-DMODE=0", "-DNP=3"], reach=["end", "partial overlap"]),
    "merge": dict(harness="m15.cc", defs=["-DMODE=1", "-DMAXC=1000000000000L"], reach=["end", "partial overlap"]),
}, bounds="up to 2 (thorough 3) points with any of 4 labels, three class lists, every split; merges of up to 2 results with counts up to 10^12")
EG = ["end", "inside"]
SPECS["G03"] = dict(srcs=[], parts={
    "box": dict(harness="g03.cc", defs=["-DMODE=0"], reach=EG),
    "pair": dict(harness="g03.cc", defs=["-DMODE=1"], reach=EG),
    "area": dict(harness="g03.cc", defs=["-DMODE=2"], reach=EG),
    "tree": dict(harness="g03.cc", defs=["-DMODE=3", "-DNB=5", "-DNQ=5", "-DREUSE", "-DPERMS={{0,1,2,3,4},{4,2,0,3,1}}", "-DSYMY(k)=0", "-DSYMH(k)=((k)==2||(k)==4)"], reach=EG),
    "tree10": dict(harness="g03.cc", defs=["-DMODE=3", "-DNB=10", "-DNQ=2", "-DYKEY=5", "-DPERMS={{7,3,9,5,1,0,2,4,6,8}}", "-DSYMY(k)=0", "-DSYMH(k)=((k)==2)"], reach=EG),
    "tree10t": dict(tier="thorough", harness="g03.cc", defs=["-DMODE=3", "-DNB=10", "-DNQ=10", "-DYKEY=5", "-DPERMS={{7,3,9,5,1,0,2,4,6,8},{0,1,2,3,4,5,6,7,8,9}}", "-DSYMY(k)=0", "-DSYMH(k)=((k)==2)"], reach=EG),
}, bounds="boxes with centres any k/16 within 64 and half sizes any k/16 up to 32 (intersection area: one axis over small integers); trees of 5 and of 10 boxes with keys any k/4 in [0,16], one or two symbolic extents, fixed insertion orders")
SPECS["G02"] = dict(srcs=["math/segment2d.cc"], parts={
    "cross": dict(harness="g02.cc", defs=["-DMODE=0"], reach=EG),
    "dist": dict(harness="g02.cc", defs=["-DMODE=1"], reach=EG),
    "might": dict(harness="g02.cc", defs=["-DMODE=3"], reach=EG),
    "rot": dict(harness="g02.cc", defs=["-DMODE=2"], reach=EG),
}, bounds="first segment one of six shapes (a point among them); second segment with one end at one of a few places (thorough: any integer place within 3) and the other any integer place within 8; points any integers within 16; rotations by six angles, segments anywhere on the integer grid within 64")
NEG = ["end", "negative"]
SPECS["G04"] = dict(srcs=[], common=[], parts={
    "small": dict(harness="g04.cc", defs=["-DMODE=0"], reach=NEG),
    "words": dict(harness="g04.cc", defs=["-DMODE=1"], reach=NEG),
    "angles": dict(harness="g04.cc", defs=["-DMODE=2"], reach=NEG),
    "ranges": dict(harness="g04.cc", defs=["-DMODE=3"], reach=NEG, env=dict(VP_QT="60000")),
    "multiples": dict(harness="g04.cc", defs=["-DMODE=4"], reach=NEG),
    "clamp": dict(harness="g04.cc", defs=["-DMODE=5"], reach=NEG),
}, bounds='integers: every 32-bit value with nine moduli, every 64-bit value with 18 moduli (the two ends excluded), every value within 512 with every modulus below 64; angles: every multiple of 1/256 within 64 rad; ranges: four lower ends and four lengths, every multiple of 1/32 within 256; clamping: any three integers, any three multiples of 1/16; exact multiples -64..64 of eight moduli and their neighbouring floats and doubles are evaluated, not solved', assumptions=['arithmetic in idealised reals except in the evaluated part'])
SPECS["G05"] = dict(srcs=["math/segment2d.cc", "math/box2d.cc"], parts={
    "build": dict(harness="g05.cc", defs=["-DMODE=0"], reach=["end"]),
    "move": dict(harness="g05.cc", defs=["-DMODE=1"], reach=["end"]),
    "rect": dict(harness="g05.cc", defs=["-DMODE=2"], env=dict(VP_ENGINE="lia"), reach=["end"]),
}, bounds="centres and offsets any k/16 within 64, widths any k/16 up to 16, two lengths, eight headings, four turns; rectangles with sides any k/16 up to 16")
SPECS["G07"] = dict(srcs=MATH, parts={
    "inside": dict(harness="g07.cc", defs=["-DMODE=0"], reach=EG),
    "move": dict(harness="g07.cc", defs=["-DMODE=1"], reach=EG),
    "area": dict(harness="g07.cc", defs=["-DMODE=2", "-DNV=4"], env=dict(VP_ENGINE="lia"), reach=EG),
    "hull": dict(harness="g07.cc", defs=["-DMODE=3"], reach=EG),
}, bounds="query points any k/4 in [-40,60] against triangle, rectangle, pentagon and 14-, 22- and 32-gons; four shapes moved by any k/4 within 100; quadrilaterals with corners any k/16 within 32; sequences of 4 to 6 points with one point any integer place within 16")
W = ["-DOX=-80,80", "-DOY=-80,80"]
SPECS["G01"] = dict(srcs=MATH, parts={
    "rect": dict(harness="g01.cc", defs=["-DPAIRS={1,4},{3,3}"] + W, reach=EG, bounds="rectangle/square and diamond/diamond, the second anywhere on a 1/8 grid offset by 1/16 and 1/32 within 10 (no vertex on a side)"),
    "tri": dict(harness="g01.cc", defs=["-DPAIRS={0,3}"] + W, reach=EG, bounds="triangle/diamond, likewise"),
    "line": dict(harness="g01.cc", defs=["-DPAIRS={1,3},{0,2}", "-DONEDIM=1", "-DOX=-9,9"], reach=EG, bounds="rectangle/diamond and triangle/pentagon at integer places (touching, sharing corners and sides), three rows"),
    "lattice": dict(harness="g01.cc", defs=["-DPAIRS={1,4},{1,1},{5,5},{0,0},{2,0}", "-DLATTICE=1", "-DOX=-6,6", "-DOY=-4,4"], reach=EG, bounds="five pairs at every integer place within 6 x 4 (enumerated)"),
    "pent": dict(tier="thorough", harness="g01.cc", defs=["-DPAIRS={2,1},{0,1},{0,0}"] + W, reach=EG),
    "pent2": dict(tier="thorough", harness="g01.cc", defs=["-DPAIRS={2,2},{2,0},{2,3},{5,0}"] + W, reach=EG),
    "linet": dict(tier="thorough", harness="g01.cc", defs=["-DPAIRS={1,1},{2,2},{0,0},{3,3},{2,5}", "-DONEDIM=1", "-DOX=-9,9"], reach=EG),
}, bounds="triangle, rectangle, diamond, thin parallelogram, square and pentagon in pairs; the second polygon moved anywhere on a 1/8 grid within 10 in general position, and to every integer place in rows (touching and shared sides included); two starting vertices, both orders")
SPECS["M05"] = dict(srcs=[M + "iou.cc"] + MATH, protos=MPROTO, common=["pbinst.cc"], parts={
    "aa": dict(harness="m05.cc", defs=["-DMODE=0"], reach=EG),
    "turned": dict(harness="m05.cc", defs=["-DMODE=1", "-DHEADINGS={0,0.3}", "-DNSIZES=1", "-DOFFR=40", "-DLINES={0.0625,0.03125,0.125,0}"], reach=EG),
    "upright": dict(harness="m05.cc", defs=["-DMODE=2"], reach=EG),
    "limits": dict(harness="m05.cc", defs=["-DMODE=3", "-DHS=0,0.3"], reach=EG),
    "batch": dict(harness="m05.cc", defs=["-DMODE=4"], reach=EG),
}, bounds="first box fixed about 300 m from the origin; axis-aligned: second box at any k/8 m within 16 m along one axis, its size along it any k/8 up to 8 m, the first any whole metre up to 8, four offsets and two sizes across; upright: heights and vertical offsets likewise at six places; turned: two pairs of headings, second box at 129 places along a line; sizes of 0 to 2.4 cm (every 1/1024 m), 999996 to 1000004 m and up to 6 m of each side at two headings for all three types; batches of up to three boxes; tolerance 1e-6",
assumptions=["results are compared up to 1e-6"])
SPECS["M16"] = dict(srcs=MATCH, protos=MPROTO, common=["pbinst.cc"], parts={
    "affinity": dict(harness="m16.cc", defs=["-DMODE=0", "-DSYMGT=0", "-DNFIXED=2"], reach=EG),
    "range": dict(harness="m16.cc", defs=["-DMODE=0", "-DSYMGT=1", "-DNFIXED=1"], reach=EG),
    "align": dict(harness="m16.cc", defs=["-DMODE=1", "-DSYMPD=0"], reach=EG),
    "ray": dict(harness="m16.cc", defs=["-DMODE=1", "-DSYMPD=1"], reach=EG),
    "overlap": dict(harness="m16.cc", defs=["-DMODE=2"], reach=EG),
    "match": dict(harness="m16.cc", defs=["-DMODE=3", "-DNG=2"], reach=EG),
}, bounds="affinity: two sensors, three tolerances, two ground truths with the prediction at any k/8 m within 64 m (z within 8 m), and ground truths at any k/8 m up to 50 m (250 m on the second ray) with predictions any k/8 m along and across; alignment: six kinds, three predictions with the ground truth anywhere as above, two rays x two ground truths with the prediction at any k/8 along the ray; overlap: prediction any k/8 m along the line of sight, sensor any k/8 m within 2 m, two headings; matching: both matchers, 2 predictions x 2 ground truths, overlaps and threshold any k/16, affinities 0, 1/2, 1, two types", assumptions=["square roots and quotients are idealised reals; results are compared up to 1e-6"])
MOPROTO = MMPROTO + ["protos/motion_submission.proto"]
MOSRC = MATH + ["common/status.cc", M + "motion_metrics.cc", M + "motion_metrics_utils.cc"]
MOT_ = dict(srcs=MOSRC, protos=MOPROTO, common=["pbinst.cc"])
SPECS["M18"] = dict(MOT_, parts={
    "one": dict(harness="m18.cc", defs=["-DNSTEPS=3", "-DOBJ=1", "-DNJ=3", "-DNDIR=4"], reach=EG),
    "two": dict(harness="m18.cc", defs=["-DNSTEPS=2", "-DOBJ=2", "-DNJ=2", "-DNDIR=2"], reach=EG),
    "twot": dict(tier="thorough", harness="m18.cc", defs=["-DNSTEPS=3", "-DOBJ=2", "-DNJ=2", "-DNDIR=4"], reach=EG),
}, bounds="1 object, 3 steps, up to 3 joint predictions and K up to 3, and 2 objects, 2 steps (thorough 3), up to 2 predictions; every pattern of valid states; predictions fixed, every ground truth position any k/8 within 64 on a line through the predicted ones (two axis and two 3-4-5 directions); objects listed in either order", assumptions=["square roots of (3t)^2+(4t)^2 are exact (idealised reals, 1e-6)"])
SPECS["M19"] = dict(MOT_, parts={
    "place": dict(harness="m19.cc", defs=["-DSPEED=0", "-DOBJ=1", "-DNJ=3"], reach=EG),
    "joint": dict(harness="m19.cc", defs=["-DSPEED=0", "-DOBJ=2", "-DNJ=2"], reach=EG),
    "speed": dict(harness="m19.cc", defs=["-DSPEED=1", "-DOBJ=2", "-DNJ=2"], reach=EG),
}, bounds="1 object with 3 and 2 objects with 2 joint predictions, K of 1 up to one more than that, ground truth at any k/8 m within an 80 x 64 m area at four headings and three speeds; two objects with speeds any k/16 up to 20 m/s at nine placements; results within 1e-3 m of a threshold are not judged", assumptions=["thresholds are compared with a margin of 1e-3 m"])
SPECS["M22"] = dict(MOT_, parts={
    "place": dict(harness="m22.cc", defs=["-DMODE=0", "-DNHEAD=5"], reach=EG),
    "turn": dict(harness="m22.cc", defs=["-DMODE=1", "-DNHEAD=5"], reach=EG),
    "still": dict(harness="m22.cc", defs=["-DMODE=2", "-DNHEAD=3"], reach=EG + ["still"]),
}, bounds='5 states of any validity pattern; displacement any k/8 m (20 m back to 50 m ahead, 25 m to either side) at six heading changes, heading changes any k/64 in [-7,7] at twelve displacements, speeds any k/16 up to 6 m/s and displacements any k/16 within 6 m straight ahead; five present headings, two origins; results within 1e-3 of a threshold are not judged', assumptions=['thresholds are compared with a margin of 1e-3'])
SPECS["M24"] = dict(MOT_, parts={
    "normal": dict(harness="m24.cc", defs=["-DMODE=0"], reach=["end"]),
    "convert": dict(harness="m24.cc", defs=["-DMODE=1"], reach=EG),
}, bounds='up to 4 predictions with any confidence k/32 up to 32; submissions of up to 2 objects or joint predictions with up to 2 trajectories of up to 3 samples, any ids, any coordinates k/16 within 2048 m')
SPECS["M21"] = dict(MOT_, parts={
    "curve": dict(harness="m21.cc", defs=["-DMODE=0", "-DNS=4"], reach=EG),
    "stats": dict(harness="m21.cc", defs=["-DMODE=1", "-DJOINT=0", "-DNJ2=1", "-DKK=3"], reach=EG),
    "first": dict(harness="m21.cc", defs=["-DMODE=1", "-DJOINT=0", "-DNJ2=2", "-DKK=1"], reach=EG),
    "joint": dict(harness="m21.cc", defs=["-DMODE=1", "-DJOINT=1", "-DNJ2=1", "-DKK=1"], reach=EG),
    "second": dict(tier="thorough", harness="m21.cc", defs=["-DMODE=1", "-DJOINT=0", "-DNJ2=2", "-DKK=2"], reach=EG),
}, bounds='precision-recall: up to 4 samples of any confidence k/8 in [-1,3], any hits, 1-3 ground truths; whole computation: two objects with up to 3 and 1 (K=3) or 2 (K=1) predictions, and one pair with two joint predictions, any confidence k/8 in [0,3], any lateral ground truth offset k/8 within 8 m (never exactly on a threshold), every trajectory type, invalid states', assumptions=['sorting is decided by comparisons on exact reals'])
SPECS["M20"] = dict(MOT_, parts={
    "axis": dict(harness="m20.cc", defs=["-DALONG=1", "-DSHAPE0=0", "-DNSHAPE=1"], reach=EG),
    "slant": dict(harness="m20.cc", defs=["-DALONG=1", "-DSHAPE0=1", "-DNSHAPE=1"], reach=EG),
    "turned": dict(harness="m20.cc", defs=["-DALONG=1", "-DSHAPE0=3", "-DNSHAPE=1"], reach=EG),
    "aside": dict(harness="m20.cc", defs=["-DALONG=0", "-DSHAPE0=0", "-DNSHAPE=1"], reach=EG),
    "down": dict(tier="thorough", harness="m20.cc", defs=["-DALONG=1", "-DSHAPE0=2", "-DNSHAPE=1"], reach=EG),
    "aturned": dict(tier="thorough", harness="m20.cc", defs=["-DALONG=0", "-DSHAPE0=3", "-DNSHAPE=1"], reach=EG),
}, bounds="two joint predictions of one object with confidences any k/8 up to 5, K of 1 to 3, three steps (two track steps per prediction step); straight trajectories along an axis and a 3-4-5 direction and a 90 degree turn; one other object, valid or not now and then, any k/8 m within 8 m along the predicted box at four (slanted: two) distances aside, or any k/8 m aside at three distances along; results within 0.1 mm of touching are not judged", assumptions=["touching within 1e-4 m is not judged"])
SPECS["M23"] = dict(MOT_, srcs=MOSRC[3:] + BRK + MATCH + [M + "metrics_utils.cc", M + "config_util.cc"], parts={
    "sums": dict(harness="m23.cc", defs=["-DMODE=0", "-DFIELD=vp_choice(\"field\",5)"], reach=EG),
    "names": dict(harness="m23.cc", defs=["-DMODE=1"], reach=["end"]),
    "scenes": dict(harness="m23.cc", defs=["-DMODE=2"], reach=EG),
}, bounds='three sets of statistics over three types and two steps, any total k/16 up to 4096 and count up to 100000 in one field of each entry, three presence patterns in four groupings; up to three configured steps; three scenarios of two steps with any ground truth distance k/16 up to 256 m and validity, four table orders', assumptions=['one symbolic field per entry, the others fixed'])
SPECS["M17"] = dict(MOT_, defs=["-UNDEBUG"], parts={
    "config": dict(harness="m17.cc", defs=["-DMODE=0"], reach=["end"]),
    "data": dict(harness="m17.cc", defs=["-DMODE=1"], reach=EG),
}, bounds='configurations: prediction rate -1..4, track rate -1..7, any number of future samples up to 100, any K from -2 to 8, any two measurement steps from -3 to 60 and nothing to predict; data: valid configurations (1 history, 4 future samples, 2 prediction steps, K 1 or 3), three tracks, with none or one class of fault (track too short or long, required index anywhere from -2 to 4 incl. repeated, 0-3 predictions, 0-2 joint predictions, 0-3 objects, any object ids from 19 to 23, wrong x/y sample counts anywhere), single and joint', assumptions=['an abort or an access outside an allocation counts as a crash (assertions in the code enabled)'])
# ---------------------------------------------------------------- scenario conversion
SCN = dict(srcs=["data_conversion/scenario_conversion.cc"], protos=["protos/scenario.proto", "protos/map.proto", "protos/conversion_config.proto", "tensorflow/core/example/feature.proto", "tensorflow/core/example/example.proto"], common=["pbinst.cc"])
def S2(nshape, n, a, k, nreq, fixpos=0, anyvalid=0): return ["-DNSHAPE=%d" % nshape, "-DNMIN=%d" % n[0], "-DNMAX=%d" % n[1], "-DAMIN=%d" % a[0], "-DAMAX=%d" % a[1], "-DKMAX=%d" % k, "-DNREQ=%d" % nreq, "-DFIXPOS=%d" % fixpos, "-DANYVALID=%d" % anyvalid]
SPECS["S02"] = dict(SCN, parts={
    "few": dict(harness="s02.cc", defs=S2(3, (1, 2), (1, 3), 2, 2, 1, 1), reach=["end", "none", "dropped", "padded"]),
    "order": dict(harness="s02.cc", defs=S2(1, (3, 3), (2, 4), 2, 1), reach=["end", "context", "dropped"]),
    "four": dict(harness="s02.cc", defs=S2(1, (4, 4), (3, 3), 1, 1), reach=["end", "context", "dropped"]),
    "counts": dict(harness="s02.cc", defs=S2(1, (3, 3), (2, 3), 1, 1, 1, 2), reach=["end", "context", "dropped"]),
    "counts5": dict(harness="s02.cc", defs=S2(1, (3, 3), (2, 3), 1, 1, 1, 3), reach=["end", "context", "dropped"]),
    "lists": dict(harness="s02.cc", defs=S2(1, (3, 3), (3, 3), 2, 3, 1), reach=["end"]),
}, bounds='1-4 tracks, 1-4 slots, 1-3 past and 0-3 future steps, lists of 1-4 required agents (repetitions included), positions, sizes, heading and validity symbolic; velocities from three exact directions', assumptions=['the distances to the vehicle are compared in idealised reals; ties may be ordered either way', 'the order in which equal hash-set elements come is that of a fixed seed'])
SPECS["S03"] = dict(SCN, parts={
    "line": dict(harness="s03.cc", defs=["-DMODE=0", "-DNSRC=1", "-DNPTS=6"], reach=["end", "full", "padded"], env=dict(VP_ENGINE="lia")),
    "ends": dict(harness="s03.cc", defs=["-DMODE=0", "-DNSRC=1", "-DNPTS=3", "-DBITS=7", "-DSPAN=24"], reach=["end", "full", "padded"], env=dict(VP_ENGINE="lia")),
    "dirs": dict(harness="s03.cc", defs=["-DMODE=1"], reach=["end", "full"]),
    "areas": dict(harness="s03.cc", defs=["-DMODE=2"], reach=["end", "full", "padded"]),
    "pairs": dict(harness="s03.cc", defs=["-DMODE=3"], reach=["end", "full", "padded"]),
    "three": dict(harness="s03.cc", defs=["-DMODE=4"], reach=["end", "full", "padded"]),
}, bounds='polylines of 1-6 points with any coordinates on a 1/8 m grid up to 256 m (1-3 points also within 20 cm of each other on a 1/128 m grid) at six spacings, areas of 1-4 vertices with side lengths 0-3 m (in 1/8 m), 2 or 3 features of any kind and type in any order, budgets of 1-13 samples', assumptions=['arithmetic in idealised reals with a tolerance of 1e-3 m'])
SPECS["S04"] = dict(SCN, parts={
    "lights": dict(harness="s04.cc", defs=["-DNL=3"], reach=["end", "last"]),
}, bounds='2-3 steps, 0-2 lights per step, 1-3 slots, dynamic states for fewer, all or more steps; ids within 2^52, times, states and stop points symbolic', assumptions=[])
SPECS["S05"] = dict(SCN, defs=["-UNDEBUG"], parts={
    "lengths": dict(harness="s05.cc", defs=["-DMODE=0"], reach=["end", "error", "result"]),
    "indices": dict(harness="s05.cc", defs=["-DMODE=1"], reach=["end", "error", "result"], alt_ok=1),
    "map": dict(harness="s05.cc", defs=["-DMODE=2"], reach=["end", "result"]),
}, bounds='0-5 time steps, 0-3 tracks with 0-5 states, 32-bit indices and ids, 0-3 required agents, 1-4 slots, 0-2 map features with 0-3 points; compiled with the protobuf index checks on, so that every access outside an array aborts', assumptions=['accesses outside an array are those the containers can see (repeated fields and standard containers with their checks on)'])
def S1(na, nr, nl, nf): return ["-DNA=%d" % na, "-DNR=%d" % nr, "-DNLIGHT=%d" % nl, "-DNF=%d" % nf]
SPECS["S01"] = dict(SCN, parts={
    "agents": dict(harness="s01.cc", defs=S1(3, 1, 1, 1), reach=["end", "padded", "dropped"]),
    "map": dict(harness="s01.cc", defs=S1(1, 5, 1, 3), reach=["end"]),
    "lights": dict(harness="s01.cc", defs=S1(1, 1, 4, 1), reach=["end"]),
}, bounds='1-3 tracks, 1-3 agent slots, 1-3 past and 0-2 future steps, scenarios ending at the current step, complete, or longer; 0-3 traffic-light slots, 0-4 roadgraph samples, 0-2 map features of three kinds; validity symbolic at the current and last step', assumptions=[])
# ---------------------------------------------------------------- camera model
CAM = dict(srcs=["wdl_limited/camera/camera_model.cc"], protos=["dataset.proto", "label.proto"], common=["pbinst.cc"], defs=["-DEIGEN_DONT_VECTORIZE"])
SPECS["K01"] = dict(CAM, parts={
    "pixels": dict(harness="k01.cc", defs=["-DMODE=0", "-DVARY=0"], reach=EG),
    "depths": dict(harness="k01.cc", defs=["-DMODE=0", "-DVARY=1"], reach=EG, alt_ok=1),
    "points": dict(harness="k01.cc", defs=["-DMODE=1", '-DZS=vp_grid("up",-256,256,2)'], reach=EG + ["behind"]),
    "lensu": dict(harness="k01.cc", defs=["-DMODE=2", "-DDIR=1"], reach=EG + ["far"]),
    "lensv": dict(harness="k01.cc", defs=["-DMODE=2", "-DDIR=0"], reach=EG + ["far"]),
    "undo": dict(harness="k01.cc", defs=["-DMODE=3"], reach=EG),
}, bounds='two calibrations and six rigid motions (symbolic depths with two of them); no distortion: every pixel on the quarter-pixel (1/4) grid in and around the image, depths 1/64-100 m, every point on a 1/4 m grid within 64 m; with distortion (three lenses): every direction on a 1/128 grid up to 1.5 along five lines in each axis; undoing the distortion is evaluated (not solved) at 81 pixels and 2 depths per lens', assumptions=['arithmetic in idealised reals with tolerances of 1e-6 pixels and 1e-8 m; Eigen compiled without vector instructions'])
SPECS["K02"] = dict(CAM, parts={
    "still": dict(harness="k02.cc", defs=["-DMODE=0", "-DXS=8"], reach=EG),
    "behind": dict(harness="k02.cc", defs=["-DMODE=0", "-DXS=-8"], reach=["end", "behind"]),
    "side": dict(harness="k02.cc", defs=["-DMODE=1", "-DTOL=1e-3", "-DBACK=1e-3"], reach=EG, alt_ok=True),
    "roll": dict(harness="k02.cc", defs=["-DMODE=2", "-DTOL=0.05", "-DBACK=0.08"], reach=EG),
    "ahead": dict(harness="k02.cc", defs=["-DMODE=3", "-DTOL=0.05", "-DBACK=0.04"], reach=EG),
}, bounds='two calibrations, four readout directions, two mountings and readout times; no lens distortion; standing still: every point at a depth of 8 m on a 1/4 m grid within 64 m and every pose time on a 1/1024 s grid; sideways and upward motion up to 25 m/s of camera and point: every point at 4, 10 and 50 m on a 1/8 m grid within 32 m; rolling (up to 1 rad/s), forward motion (up to 25 m/s) and yaw: evaluated (not solved) at 49 directions at each distance', assumptions=['arithmetic in idealised reals; Eigen compiled without vector instructions; rotation between pose and exposure to first order, as documented for the model'])
