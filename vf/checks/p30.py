"""P30 resizing and crop-and-resize."""
import itertools
import math

import numpy as np
from ..conv import *  # noqa
from .. import conv, tf_tv as V
import tensorflow as tf

PROP = "P30"
run_job = V.run_job
R = tf.raw_ops
OPN = {"n": R.ResizeNearestNeighbor, "l": R.ResizeBilinear, "c": R.ResizeBicubic, "a": R.ResizeArea}


def jobs(tier):
    S = Suite(tier, quick=(9, 10, 11, 13, 18))
    q = tier == "quick"

    def rs(kind, x, size, al, half):
        k = {} if kind == "a" else {"half_pixel_centers": half}
        return OPN[kind](images=x, size=size, align_corners=al, **k)

    def sizes(n):
        return [o for o in (1, 2, 3, 4, 5, 6, 7, 8) if o in (1, 2, 3, 4, 6) or n in (3, 5)]
    pairs = [(n, o) for n in (1, 2, 3, 4, 5, 6) for o in sizes(n)]
    for kind in "nlca":
        for al, half in ((False, False), (True, False), (False, True)):
            if kind == "a" and half:
                continue
            for h, nh in pairs:
                pw = lambda a, b: a and b and max(a, b) % min(a, b) == 0 and max(a, b) // min(a, b) in (1, 2, 4, 8)
                if kind == "c" and not (nh == 1 or h == 1 or pw(h - 1, nh - 1) if al else pw(h, nh)):
                    continue    # TensorFlow's cubic kernel is tabulated in steps of 1/1024
                if kind == "a" and al and h == 1 and nh > 1:
                    continue    # an empty average, undefined in TensorFlow
                w, nw = pairs[(pairs.index((h, nh)) * 7 + 5) % len(pairs)] if kind != "c" else (2, 4)
                if kind == "c" and al:
                    w, nw = 2, 3
                if kind == "a" and al and w == 1:
                    w = 3
                dn = "shrink" if nh < h or nw < w else "grow"
                for form in ("st", "dyn", "rt", "nb", "rank"):
                    if form == "rank" and (h, nh) not in ((3, 6), (4, 2)):
                        continue

                    def build(B, kind=kind, al=al, half=half, h=h, nh=nh, w=w, nw=nw, form=form):
                        sh = (1, h, w, 1) if kind != "n" else (1, h, w, 2)
                        decl = {"st": "same", "dyn": "dyn", "rt": "same", "nb": [None, h, w, None], "rank": "rank"}[form]
                        x = B.input(F, sh, decl=decl)
                        sz = B.input(I32, (2,), value=np.array([nh, nw], np.int32)) if form == "rt" else tf.constant([nh, nw])
                        return rs(kind, x, sz, al, half)
                    S.add("rz" + kind + dn, (al, half, h, nh, w, nw, form), build, ops=None if not q else ((9, 10, 11, 18) if form in ("st", "rt") and kind in "nl" and not (al or half) else (11, 13)))
    # batch and channels stay apart; shared inputs and chains
    for kind in "nlca":
        for sh in ((2, 2, 3, 3), (3, 2, 2, 1), (1, 2, 2, 4)):
            for dn, d in (("st", "same"), ("dyn", "dyn")):
                S.add("rzbc" + kind, (sh, dn), lambda B, kind=kind, sh=sh, d=d: (lambda x: (rs(kind, x, tf.constant([sh[1] * 2, sh[2] * 2]), False, False), x * 2.))(B.input(F, sh, decl=d)))
                S.add("rzchain" + kind, (sh, dn), lambda B, kind=kind, sh=sh, d=d: (lambda x: rs(kind, tf.nn.relu(rs(kind, x, tf.constant([sh[1] * 2, sh[2] * 2]), False, False)), tf.constant([sh[1] * 4, sh[2] * 2]), False, False))(B.input(F, sh, decl=d)))
        # run-time sizes computed from the shape
        for m in (1, 2, 3) if kind != "c" else (1, 2, 4):
            S.add("rzshape" + kind, (m,), lambda B, kind=kind, m=m: (lambda x: rs(kind, x, tf.shape(x)[1:3] * m, False, False))(B.input(F, (1, 2, 3, 1), decl="dyn")))
            S.add("rzother" + kind, (m,), lambda B, kind=kind, m=m: (lambda x, y: rs(kind, x, tf.shape(y)[1:3], False, False))(B.input(F, (1, 2, 3, 1), decl="dyn"), B.input(F, (1, 2 * m, 3 * m, 1), decl="dyn")))
    # element types
    for dt in (U8, I8, I32, I64, np.float16, F64, I16, np.uint16):
        for kind in "nlca":
            for (al, half) in ((False, False), (False, True)):
                if not (kind == "a" and half):
                    S.add("rzdt" + kind, (np.dtype(dt).name, al, half), lambda B, dt=dt, kind=kind, al=al, half=half: rs(kind, B.input(dt, (1, 2, 2, 1), lo=0 if np.dtype(dt).kind == "u" else -99, hi=99), tf.constant([4, 2]), al, half), ops=(9, 10, 11, 13, 18))
                    S.add("rzdtrt" + kind, (np.dtype(dt).name, al, half), lambda B, dt=dt, kind=kind, al=al, half=half: rs(kind, B.input(dt, (1, 2, 2, 1), decl="dyn", lo=0 if np.dtype(dt).kind == "u" else -99, hi=99), B.input(I32, (2,), value=np.array([4, 2], np.int32)), al, half), ops=(9, 10, 11, 13, 18))
    # sizes whose ratio is not representable: the run-time size must still be the requested one
    for kind in "nl":
        for h, nh in ((41, 2), (55, 42), (83, 7), (49, 1), (98, 2), (7, 23), (3, 41), (11, 13), (29, 30)) + (() if q else tuple((a, b) for a in range(9, 64, 6) for b in range(1, 64, 7) if kind == "l" or math.gcd(a, b) == 1)):
            dn = "shrink" if nh < h else "grow"
            for form in ("st", "dyn"):
                S.add("rzbig" + kind + dn, (h, nh, form), lambda B, h=h, nh=nh, form=form, kind=kind: rs(kind, B.input(F, (1, h, 1, 1), decl="same" if form == "st" else "dyn"), tf.constant([nh, 1]), False, False), ops=(9, 10, 11, 18) if kind == "n" else (9, 10, 11))
    # what keras and tf.image emit
    for meth in ("nearest", "bilinear", "bicubic", "area"):
        for aa in (False,):
            for sz in ((4, 6), (1, 3), (2, 2)):
                if meth == "bicubic" and sz != (4, 6):
                    continue
                for d in ("same", [None, None, None, 1]):
                    S.add("image", (meth, sz, str(d)), lambda B, meth=meth, sz=sz, d=d: tf.image.resize(B.input(F, (1, 2, 3, 1), decl=d), sz, method=meth), ops=None if not q else (11, 13))
                S.add("image3", (meth, sz), lambda B, meth=meth, sz=sz: tf.image.resize(B.input(F, (2, 3, 1)), sz, method=meth), ops=None if not q else (11, 13))
                S.add("imageratio", (meth, sz), lambda B, meth=meth, sz=sz: tf.image.resize(B.input(F, (1, 2, 4, 1)), (4, 8) if meth == "bicubic" else sz, method=meth, preserve_aspect_ratio=True), ops=None if not q else (11, 13))
    for f in ((2, 2), (1, 3)):
        for itp in ("nearest", "bilinear"):
            S.add("upsampling", (f, itp), lambda B, f=f, itp=itp: tf.compat.v1.image.resize_images(B.input(F, (1, 2, 3, 2)), (2 * f[0], 3 * f[1]), method={"nearest": 1, "bilinear": 0}[itp]))
    # ------------------------------------------------------------ crop and resize
    BX = ([0., 0., 1., 1.], [0.25, 0.5, 0.75, 1.], [0.5, 0., 1., 0.5], [-.25, 0., .5, 1.25], [1., 1., 0., 0.], [0.5, 0.5, 0.5, 0.5], [0., 0., 1.5, 2.], [0.125, 0.25, 0.375, 0.25], [1.5, 1.5, 2., 2.], [0.75, 0.25, 0.25, 0.5])
    for nb, b in enumerate(BX):
        for cs in ((2, 2), (3, 5), (1, 1), (1, 3), (5, 2)):
            for meth in ("bilinear", "nearest"):
                for ext in (0.0, -1.5):
                    for cb in (1, 0):
                        if cb == 0 and ext:
                            continue
                        def cr(B, b=b, cs=cs, meth=meth, ext=ext, cb=cb):
                            x = B.input(F, (1, 5, 3, 1), decl="same" if cb else "dyn")
                            bx = tf.constant([b]) if cb else B.input(F, (1, 4), value=np.array([b], F), decl="dyn")
                            sz = tf.constant(list(cs)) if cb else B.input(I32, (2,), value=np.array(cs, np.int32))
                            return R.CropAndResize(image=x, boxes=bx, box_ind=tf.constant([0]), crop_size=sz, method=meth, extrapolation_value=ext)
                        # onnxruntime ignores the box along a dimension that keeps its size
                        S.add("crop", (nb, cs, meth, ext, cb), cr, mn=10, xval=cs[0] != 5 and cs[1] != 3, ops=None if not q else (10, 11, 13, 18))
    for ids in ([1, 0], [0, 0], [2, 2], [1], [], [2, 0, 1]):
        for rt in (0, 1):
            for d in ("same", "dyn"):
                def cr2(B, ids=ids, rt=rt, d=d):
                    x = B.input(F, (3, 2, 3, 2), decl=d)
                    n = len(ids)
                    bx = np.array(([[0., 0., 1., 1.], [.25, 0., 1., .5], [.5, .25, 1., 1.]])[:n], F).reshape(n, 4)
                    it = B.input(I32, (n,), value=np.array(ids, np.int32), decl=d) if rt else tf.constant(ids, tf.int32)
                    return R.CropAndResize(image=x, boxes=tf.constant(bx), box_ind=it, crop_size=tf.constant([3, 2]))
                S.add("cropids", (ids, rt, d), cr2, mn=10, ops=None if not q else (10, 11, 13, 18))
                S.add("cropidsy", (ids, rt, d), lambda B, cr2=cr2: (lambda y: (y * 2., tf.shape(y)))(cr2(B)), mn=10, ops=None if not q else (10, 11, 13, 18))
    S.add("cropidx", (), lambda B: R.CropAndResize(image=B.input(F, (3, 2, 2, 1)), boxes=tf.constant([[0., 0., 1., 1.], [0., 1., 1., 0.]]), box_ind=B.input(I32, (2,), lo=0, hi=2), crop_size=tf.constant([3, 3])), mn=10, ops=None if not q else (10, 11, 13, 18))
    for dt in (U8, I32, F64, np.float16):
        S.add("cropdt", (np.dtype(dt).name,), lambda B, dt=dt: R.CropAndResize(image=B.input(dt, (1, 2, 3, 1)), boxes=tf.constant([[0., 0., 1., 1.]]), box_ind=tf.constant([0]), crop_size=tf.constant([3, 3])), mn=10, ops=(10, 11, 13, 18))
    # ------------------------------------------------------------ contrast
    for sh in ((2, 2, 3), (2, 1, 2, 3)):
        for c in (0., 1., 2.5, -1.):
            S.add("contrast", (sh, c), lambda B, sh=sh, c=c: R.AdjustContrastv2(images=B.input(F, sh), contrast_factor=tf.constant(c)))
            S.add("contrastrt", (sh, c), lambda B, sh=sh, c=c: R.AdjustContrastv2(images=B.input(F, sh, decl="dyn"), contrast_factor=B.input(F, ())))
    return S.jobs


def main(tier):
    return conv.run(PROP, tier, jobs(tier), run_job, conv.EXPL,
                    ["images up to 6x6 resized to 1..8 (cubic: ratios whose weights are exact in TensorFlow's 1/1024 table), one spatial dimension up to 98", "crop boxes with dyadic corners, crops up to 5x5, every box index",
                     "pixel values are symbols; sizes and boxes are concrete, given statically or at run time", "opsets 9,10,11,13,18 (quick) or 9..18 (thorough)"],
                    ["tf2onnx.onnx_opset.nn.Resize", "tf2onnx.onnx_opset.nn.CropAndResize", "tf2onnx.onnx_opset.nn.build_dynamic_target_size", "tf2onnx.onnx_opset.nn.AdjustContrastv2"])
