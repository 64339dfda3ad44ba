"""P09: cutting an image into square tiles and putting them together."""
import math, sys, types
import numpy as np
import tfx
def tf_(vp):
    """the five operations the code takes from TensorFlow (not installed), on numpy arrays of any elements"""
    def pad(d, p, mode="CONSTANT"):
        d = np.asarray(d); p = np.asarray(p)
        if mode.upper() == "REFLECT":
            if any(max(a) > n - 1 for a, n in zip(p, d.shape)): raise ValueError("paddings must be less than the dimension size")
            return np.pad(d, p, mode="reflect")
        if mode.upper() == "SYMMETRIC": return np.pad(d, p, mode="symmetric")
        return np.pad(d, p, constant_values=0)
    ceil = lambda x, **k: math.ceil(x)
    return tfx.TF(vp, math=tfx.Sub(vp, ceil=ceil, floor=lambda x: math.floor(x)), constant=np.array, convert_to_tensor=np.asarray, pad=pad, reshape=lambda x, s: np.reshape(x, tuple(s)), transpose=lambda x, perm=None: np.transpose(x, perm), shape=lambda x: x.shape, cast=lambda x, d: x, identity=lambda x: x)
def load_(vp):
    t = sys.modules["tensorflow"] = tf_(vp); m = vp.load("waymo_open_dataset.utils.compression.tiling"); m.tf = t; return m
def eq(vp, got, shape, want):
    """got is an array of the shape with the wanted element at every place"""
    return tuple(got.shape) == tuple(shape) and vp.and_(True, *[got[i] is want(*i) or got[i] == want(*i) for i in np.ndindex(*shape)])
def image(vp, h, w, d):
    a = np.empty((h, w, d), dtype=object if vp.symbolic else np.int64)
    for i in np.ndindex(h, w, d): a[i] = vp.int("pixel", -2**30, 2**30)
    return a
def cut(vp, h, w, t, d=2):
    m = load_(vp); H, W, D, T = 1 + vp.choice("height", h), 1 + vp.choice("width", w), 1 + vp.choice("channels", d), 1 + vp.choice("tile", t)
    ny, nx = -(-H // T), -(-W // T); vp.assume(ny * T - H <= H - 1 and nx * T - W <= W - 1)
    a = image(vp, H, W, D); keep = a.copy(); err, tiles = vp.raises(lambda: m.extract_tiles(a, T))
    vp.check(err is None, "tiling raises")
    if err: return
    R = lambda i, n: i if i < n else 2 * (n - 1) - i
    def want(k, e):
        y, x = divmod(k, nx); i, j, c = e // (T * D), e // D % T, e % D
        return keep[R(y * T + i, H), R(x * T + j, W), c]
    vp.check(eq(vp, tiles, (ny * nx, T * T * D), want), "tiles go row by row over the image, mirrored at its far edges")
    err, back = vp.raises(lambda: m.combine_tiles(tiles, H, W, T)); vp.check(err is None, "merging raises")
    if err: return
    vp.check(eq(vp, back, (H, W, D), lambda *i: keep[i]), "merging gives the image back"); vp.check(eq(vp, a, (H, W, D), lambda *i: keep[i]), "the input is left alone")
    if ny * T > H or nx * T > W: vp.reach("padded")
    vp.reach("end")
def paste(vp, n, t):
    """any set of tiles of the right number and length, and lengths that fit no tile"""
    m = load_(vp); ny, nx, T = 1 + vp.choice("down", n), 1 + vp.choice("across", n), 1 + vp.choice("tile", t); L = 1 + vp.choice("length", 2 * T * T)
    H, W = ny * T - vp.choice("short", T), nx * T - vp.choice("thin", T); a = image(vp, ny * nx, L, 1)[:, :, 0]
    err, out = vp.raises(lambda: m.combine_tiles(a, H, W, T)); D = L // (T * T)
    if L % (T * T): vp.check(isinstance(err, ValueError), "tiles of a length that is no whole number of channels are rejected"); vp.reach("rejected"); return
    vp.check(err is None, "merging raises")
    if err: return
    vp.check(eq(vp, out, (H, W, D), lambda y, x, c: a[(y // T) * nx + x // T, ((y % T) * T + x % T) * D + c]), "a pixel comes from the tile that covers it"); vp.reach("end")
