def bug(i, prop, edits, needs, breaks, cc=None, py=None): BUGS[i] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, **(dict(cc=cc) if cc else dict(py=py)))
STUB = r'''
import sys, types, importlib
class Made:
  def __init__(self, *a, **k): pass
  def __call__(self, *a, **k): return Made()
  def __getattr__(self, n):
    if n.startswith('__'): raise AttributeError(n)
    return Made()
  def __or__(self, o): return object
  def __ror__(self, o): return object
class Stub(types.ModuleType):
  def __getattr__(self, n):
    if n.startswith('__'): raise AttributeError(n)
    return Made()
for n in 'tensorflow tensorflow_probability tensorflow_graphics sklearn sklearn.neighbors scipy scipy.stats skimage pyarrow'.split():
  sys.modules[n] = Stub(n); sys.modules[n].__path__ = []
import numpy as np
import waymo_open_dataset
v2 = types.ModuleType('waymo_open_dataset.v2'); v2.__path__ = [p + '/v2' for p in waymo_open_dataset.__path__]; sys.modules[v2.__name__] = v2
'''
bug("merge-tiles-grid-turned", "P09", [("utils/compression/tiling.py", "          info.num_tiles_y,\n          info.num_tiles_x,\n", "          info.num_tiles_x,\n          info.num_tiles_y,\n")],
 "an image with different numbers of tile rows and columns", "the tiles are put together in the wrong places",
 py=STUB + r'''
import math
from waymo_open_dataset.utils.compression import tiling
tf = types.SimpleNamespace(math=types.SimpleNamespace(ceil=math.ceil), constant=np.array, pad=lambda d, p, mode='CONSTANT': np.pad(d, p, mode=mode.lower()), reshape=lambda x, s: np.reshape(x, tuple(s)), transpose=np.transpose, Tensor=np.ndarray)
tiling.tf = tf
for h, w in ((4, 4), (4, 6), (3, 7)):
  a = np.arange(h * w * 2).reshape(h, w, 2)
  b = tiling.combine_tiles(tiling.extract_tiles(a, 2), h, w, 2)
  if not np.array_equal(a, b): print('FAILED', h, w); raise SystemExit(1)
''')
bug("gathered-types-in-place", "P10", [("utils/trajectory_utils.py", "        object_type=tf.gather(self.object_type, object_indices, axis=-1),\n", "        object_type=self.object_type[:object_indices.shape[0]],\n")],
 "objects of different types asked for in an order other than the stored one", "an object gets the type of another one",
 py=STUB + r'''
from waymo_open_dataset.utils import trajectory_utils as t
t.tf = types.SimpleNamespace(assert_rank=lambda x, r: None, gather=lambda x, i, axis=0: np.take(x, i, axis=axis), newaxis=None, reduce_sum=np.sum, reduce_any=np.any, cast=lambda x, d: np.asarray(x).astype(d), int32=np.int32, matmul=np.matmul, range=lambda a, b, dtype=None: np.arange(a, b))
s = np.zeros((3, 2))
o = t.ObjectTrajectories(x=s, y=s, z=s, heading=s, length=s, width=s, height=s, valid=s > 0, object_id=np.array([5, 6, 7]), object_type=np.array([1, 2, 3]))
r = o.gather_objects_by_id(np.array([7, 5]))
if r.object_id.tolist() != [7, 5] or r.object_type.tolist() != [3, 1]: print('FAILED', r); raise SystemExit(1)
''')
bug("absent-values-dropped", "P11", [("v2/component.py", "      columns['.'.join(field_path)] = value_fn(dataclass, field)\n", "      value = value_fn(dataclass, field)\n      if value is not None:\n        columns['.'.join(field_path)] = value\n")],
 "a component with an absent optional value or record", "its column is missing and the component cannot be rebuilt",
 py=STUB + r'''
import dataclasses, typing
from waymo_open_dataset.v2 import component as c
@dataclasses.dataclass(frozen=True)
class Leaf:
  x: int = c.create_column(arrow_type=1)
@dataclasses.dataclass(frozen=True)
class SomeKey(c.Key):
  name: str = c.create_column(arrow_type=1)
@dataclasses.dataclass(frozen=True)
class Thing(c.Component):
  key: SomeKey
  a: int = c.create_column(arrow_type=1)
  b: typing.Optional[int] = c.create_column(arrow_type=1, default=None)
  leaf: typing.Optional[Leaf] = None
for b in (None, 3):
  for leaf in (None, Leaf(4)):
    t = Thing(key=SomeKey('k'), a=1, b=b, leaf=leaf); d = t.to_flatten_dict()
    try: u = Thing.from_dict(d)
    except Exception as e: print('FAILED', repr(e)); raise SystemExit(1)
    if len(d) != 4 or u.b != b or u.a != 1: print('FAILED', u); raise SystemExit(1)
''')
bug("sequence-offset-by-count", "P08", [("utils/camera_segmentation_utils.py", "    cumulative_max_instance_id += max_instance_id\n", "    cumulative_max_instance_id += len(global_instance_ids[sequence])\n")],
 "labels of two sequences whose global ids are not consecutive", "instances of different sequences get the same id",
 py=STUB + r'''
PNG = {}
class Box:
  def __init__(self, a): self.a = a
  def numpy(self): return self.a
from waymo_open_dataset import dataset_pb2
from waymo_open_dataset.utils import camera_segmentation_utils as u
u.tf = types.SimpleNamespace(uint16=np.uint16, io=types.SimpleNamespace(decode_png=lambda n, dtype=None: Box(PNG[n])))
def label(seq, gid):
  n = b'%d' % len(PNG); PNG[n] = np.array([[[4 * 1000 + 1], [0]]], np.uint16)
  l = dataset_pb2.CameraSegmentationLabel(panoptic_label_divisor=1000, panoptic_label=n, sequence_id=seq)
  l.instance_id_to_global_id_mapping.add(local_instance_id=1, global_instance_id=gid, is_tracked=True)
  return l
for a, b in ((1, 1), (7, 6), (7, 7)):
  pan, _, _, d = u.decode_multi_frame_panoptic_labels_from_segmentation_labels([label('a', a), label('b', b)])
  x, y = int(pan[0][0, 0, 0]), int(pan[1][0, 0, 0])
  if x == y or x // d != 4 or y // d != 4: print('FAILED', a, b, x, y, d); raise SystemExit(1)
''')
bug("bucket-skips-zero-scores", "P16", [("wdl_limited/sim_agents_metrics/metrics.py", "      weights_sum += weight\n", "      weights_sum += weight if metric_score else 0.0\n")],
 "a likelihood of exactly zero", "the group's score is the mean over the other likelihoods only",
 py=STUB + r'''
from waymo_open_dataset.protos import sim_agents_metrics_pb2 as p
from waymo_open_dataset.wdl_limited.sim_agents_metrics import metrics
c = p.SimAgentMetricsConfig(); m = p.SimAgentMetrics()
names = 'linear_speed linear_acceleration angular_speed angular_acceleration distance_to_nearest_object collision_indication time_to_collision distance_to_road_edge offroad_indication traffic_light_violation'.split()
for i, n in enumerate(names):
  getattr(c, n).metametric_weight = 0.1; setattr(m, n + '_likelihood', 0.0 if n == 'angular_speed' else 0.5)
b = metrics.aggregate_metrics_to_buckets(c, m)
if abs(b.kinematic_metrics - 0.375) > 1e-6 or abs(b.map_based_metrics - 0.5) > 1e-6: print('FAILED', b); raise SystemExit(1)
''')
