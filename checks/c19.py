"""C19: images are decoded, coloured, balanced and scaled pixel by pixel, within the output range."""
import argparse
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc
import dataset as D
import numpy as np
import yaml
import c17

PATTERNS = {"rggb": ((0, 1), (1, 2)), "grbg": ((1, 0), (2, 1)), "bggr": ((2, 1), (1, 0)), "gbrg": ((1, 2), (0, 1))}


# ------------------------------------------------------------------ decoding
def loader_case(case, rec):
    """every sample of an image file at every bit depth"""
    from imageio.v2 import imwrite
    from correct_images.loaders import loader

    dtype, depth, colour, ext = case
    rec.state(case)
    full = np.iinfo(dtype).bits
    if dtype == "uint8":
        v = np.arange(256).reshape(16, 16)
    else:
        v = np.arange(65536).reshape(256, 256)
    v = v.astype(dtype)
    if colour:
        v = np.dstack([v, v[::-1], v.T])
    with mc.scratch() as root:
        f = root / ("a." + ext)
        imwrite(f, v)
        ld = loader.Loader()
        ld.bit_depth = depth
        ld.set_loader("default")
        g = ld(str(f))
        rec.step()
        rec.out(np.asarray(g).tobytes())
        shift = max(0, full - depth)
        e = (v.astype(np.int64) >> shift) / 2.0**depth
        if g.shape != e.shape or not np.array_equal(np.asarray(g, np.float64), e):
            rec.fail("decode", "%s image of a %d bit camera is not read sample by sample" % (dtype, depth))
        elif depth <= full and not (g.min() >= 0 and g.max() < 1):
            rec.fail("range", "%s image of a %d bit camera has values %s..%s" % (dtype, depth, g.min(), g.max()))


def xviii_chunk(px):
    """four 24-bit samples -> 12 bytes: big endian 24-bit stream, stored in byte-swapped 32-bit words"""
    s = b"".join(int(p).to_bytes(3, "big") for p in px)
    return b"".join(s[i : i + 4][::-1] for i in (0, 4, 8))


def xviii_case(case, rec):
    """every byte value at every position of the packed format"""
    from correct_images.loaders.xviii import load_xviii_bayer_from_binary

    slot, byte, rest = case
    rec.state(case)
    h, w = 4, 256  # all 256 values of one byte, in every column group
    px = np.full((h, w), rest, np.int64)
    for i in range(h):
        for j in range(w):
            if (j + i) % 4 == slot:
                px[i, j] = (px[i, j] & ~(255 << (8 * byte))) | (((j + i * 64) % 256) << (8 * byte))
    data = b"".join(xviii_chunk(px[i, j : j + 4]) for i in range(h) for j in range(0, w, 4))
    g = load_xviii_bayer_from_binary(np.frombuffer(data, np.uint8), h, w)
    rec.step()
    rec.out(g.tobytes())
    if g.shape != px.shape or not np.array_equal(g.astype(np.int64), px):
        p = np.argwhere(g.astype(np.int64) != px)[0]
        rec.fail("xviii", "sample at %s is %d instead of %d" % (tuple(p), g[tuple(p)], px[tuple(p)]))


def xviii_file_case(case, rec):
    from correct_images.loaders import loader

    rec.state(case)
    k, depth = case
    px = (np.arange(1024 * 1280).reshape(1024, 1280) * k + 7) % (1 << depth)
    s = np.empty((px.size, 3), np.uint8)
    for b in range(3):
        s[:, b] = (px.ravel() >> (8 * (2 - b))) & 255
    with mc.scratch() as root:
        s.ravel().view("<u4").byteswap().tofile(root / "a.raw")
        ld = loader.Loader()
        ld.bit_depth = depth
        ld.set_loader("xviii")
        g = ld(root / "a.raw")
    rec.step()
    rec.out(g.tobytes())
    if g.shape != px.shape or not np.array_equal(g.astype(np.float64) * 2**depth, px):
        rec.fail("xviii", "raw file is not read sample by sample at %d bit" % depth)


# ------------------------------------------------------------------ colours
LEVELS = (0.0, 0.125, 0.5, 1.0)


def debayer_case(case, rec):
    """evenly coloured scenes keep their colour; every sample stays at its pixel and channel"""
    from correct_images.corrections import debayer

    pattern, upper, rgb, size = case
    rec.state(case)
    h, w = size
    pat = PATTERNS[pattern]
    chan = np.array([[pat[i % 2][j % 2] for j in range(w)] for i in range(h)])
    name = pattern.upper() if upper else pattern
    img = np.array(rgb, np.float32)[chan]
    g = debayer(img.copy(), name)
    rec.step()
    rec.out(g.tobytes())
    if g.shape != (h, w, 3) or np.abs(g - np.array(rgb)).max() > 1e-3:
        rec.fail("colour", "an evenly coloured scene %s seen through %s becomes %s" % (rgb, pattern, g[h // 2, w // 2] if g.ndim == 3 else g.shape))
        return
    # structured scene: a ramp that is different in every pixel
    ramp = ((np.arange(h * w).reshape(h, w) * 37 % 101) / 128.0 + 0.05).astype(np.float32)
    g = debayer(ramp.copy(), name)
    rec.step()
    for i in range(2, h - 2):
        for j in range(2, w - 2):
            if abs(g[i, j, chan[i, j]] - ramp[i, j]) > 1e-3:
                rec.fail("position", "%s: sample at (%d,%d) is not found in channel %d of that pixel" % (pattern, i, j, chan[i, j]))
                return
    # values outside the range do not wrap around
    g = debayer(np.where(chan == 0, np.float32(1.5), np.float32(-0.5)), name)
    rec.step()
    if np.abs(g[..., 0] - 1).max() > 1e-3 or np.abs(g[..., 1:]).max() > 1e-3:
        rec.fail("wrap", "values outside the range are not limited to it")


def folder_script_case(case, rec):
    """the installed debayer_folder script: same colours, and samples at their pixel"""
    import importlib.util

    import cv2
    import imageio.v2 as imageio

    pattern, upper, rgb, depth = case
    rec.state(case)
    src = mc.REPO / "src/scripts/debayer_folder.py"
    spec = importlib.util.spec_from_file_location("debayer_folder_script", str(src))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    pat = PATTERNS[pattern]
    h, w = 8, 10
    top = 255 if depth == 8 else 65535
    chan = np.array([[pat[i % 2][j % 2] for j in range(w)] for i in range(h)])
    want = np.round(np.array(rgb) * top)
    with mc.scratch() as d:
        (d / "in").mkdir()
        (d / "out").mkdir()
        for n in ("a.b", "c"):
            imageio.imwrite(d / "in" / (n + ".tif"), want[chan].astype(np.uint8 if depth == 8 else np.uint16))
            mod.debayer(d / "in" / (n + ".tif"), pattern.upper() if upper else pattern, d / "out")
            rec.step()
        names = sorted(f.name for f in (d / "out").iterdir())
        if names != ["a.b.png", "c.png"]:
            rec.fail("names", "debayer_folder writes %r" % (names,))
            return
        g = cv2.imread(str(d / "out" / "c.png"), -1)[..., ::-1].astype(float)
    rec.out(g.tobytes())
    if g.shape != (h, w, 3) or abs(g - want).max() > 1:
        rec.fail("colour", "debayer_folder: an evenly coloured scene %s seen through %s becomes %s" % (want, pattern, g[h // 2, w // 2]))


def stat_case(case, rec):
    """brightness and contrast: every pixel value against every statistic"""
    from correct_images.corrections import pixel_stat

    mean, std, tm, ts, ch = case
    rec.state(case)
    v = np.linspace(-0.5, 2.0, 41, dtype=np.float32).reshape(1, 41).repeat(3, 0)
    v[1] = v[1][::-1]
    m = np.array([[mean], [mean / 2], [mean + 0.1]], np.float32).repeat(41, 1)
    s = np.array([[std], [std * 2], [std / 2]], np.float32).repeat(41, 1)
    if ch:
        v, m, s = (np.dstack([x, x[::-1], x]) for x in (v, m, s))
    keep = v.copy()
    g = pixel_stat(v, m, s, tm, ts)
    rec.step()
    rec.out(g.tobytes())
    e = np.clip((v.astype(np.float64) - m) / s * (ts / 100.0) + tm / 100.0, 0, 1)
    if g.shape != v.shape or np.abs(g - e).max() > 2e-4:
        rec.fail("target", "mean %g std %g is not brought to brightness %g %% contrast %g %%" % (mean, std, tm, ts))
    if g.min() < 0 or g.max() > 1:
        rec.fail("range", "result leaves the range: %s..%s" % (g.min(), g.max()))
    if not np.array_equal(v, keep):
        rec.fail("altered", "the input image is changed")


def balance_case(case, rec):
    from correct_images.corrections import manual_balance

    rows, off, gray = case
    rec.state(case)
    vals = (0.0, 0.25, 1.0)
    px = np.array(list(itertools.product(vals, repeat=3)))
    img = px.reshape(3, 9, 3) if not gray else px.reshape(9, 9)
    g = manual_balance(img.copy(), np.array(rows, float), np.array(off, float))
    rec.step()
    rec.out(g.tobytes())
    if gray:
        e = (img - off[0]) * rows[0][0]
    else:
        e = np.empty(img.shape)
        for c in range(3):
            e[:, :, c] = sum(rows[c][k] * (img[:, :, k] - off[k]) for k in range(3))
    if g.shape != e.shape or np.abs(g - e).max() > 1e-6:
        rec.fail("balance", "colour matrix %s after subtracting %s is not applied to every pixel" % (rows, off))


def gamma_case(case, rec):
    """darker stays darker, the range is kept"""
    from correct_images.corrections import gamma_correct

    rec.state(case)
    img = np.array(case, np.float64).reshape(1, -1)
    keep = img.copy()
    g = gamma_correct(img)
    rec.step()
    rec.out(g.tobytes())
    if not np.array_equal(img, keep):
        rec.fail("altered", "the input image is changed")
    if not np.isfinite(g).all() or g.max() > 1 + 1e-9 or g.min() < -0.0551:
        rec.fail("range", "gamma of %s is %s" % (case, g))
        return
    o = np.argsort(img[0], kind="stable")
    a, b = img[0][o], g[0][o]
    if (np.diff(b) < -1e-12).any() or ((np.diff(b) <= 0) & (np.diff(a) > 0)).any():
        rec.fail("order", "gamma does not keep the order of brightness: %s -> %s" % (a, b))
    if 1.0 in case and abs(g.max() - 1) > 1e-9:
        rec.fail("white", "white becomes %s" % g.max())


# ------------------------------------------------------------------ whole command
H, W = 8, 12


def scene_case(case, rec):
    """process command: an evenly coloured scene in every camera type, depth and method"""
    from imageio.v2 import imread, imwrite
    from correct_images.correct_images import call_process

    ctype, dtype, depth, method, rgb, ext = case
    rec.state(case)
    with mc.scratch() as root:
        built = c17.build(root, ["i"], "uniform", "process", method=method, spare=False)
        raw, pro, imgs = built[0]
        cam = c17.camera_yaml(ctype)
        for c in cam["cameras"]:
            c.update(bit_depth=depth, extension=ext)
        (raw / "camera.yaml").write_text(yaml.safe_dump(cam))
        cfg = root / "configuration" / "y" / "dive0"
        st = c17.settings("uniform", method, False, "process")
        # identity: mean 0.3, std 0.2 -> brightness 30, contrast 20; gain 1, subtractor 0 except one channel
        st["cameras"][1]["colour_correction"] = {"brightness": 30, "contrast": 20}
        st["cameras"][1]["manual_balance"] = {"subtractors_rgb": [0.0, 0.0, 0.0], "colour_gain_matrix_rgb": [[1, 0, 0], [0, 0.5, 0], [0, 0, 0.25]]}
        (cfg / "correct_images.yaml").write_text(yaml.safe_dump(st))
        full = np.iinfo(dtype).bits
        top = 1 << depth
        smp = [int(x * (top - 1)) for x in rgb]
        if ctype in PATTERNS:
            pat = PATTERNS[ctype]
            a = np.array([[smp[pat[i % 2][j % 2]] for j in range(W)] for i in range(H)])
        elif ctype == "grayscale":
            a = np.full((H, W), smp[0])
        else:
            a = np.empty((H, W, 3), int)
            a[:] = smp if ctype == "rgb" else smp[::-1]
        a = (a << max(0, full - depth)).astype(dtype)
        old = next((raw / "image/LC").glob("*"))
        new = old.with_suffix("." + ext)
        old.unlink()
        imwrite(new, a)
        nav = next(pro.glob("json_renav_*")) / "csv/ekf/auv_ekf_LC.csv"
        nav.write_text(nav.read_text().replace(".png", "." + ext))
        if method == "colour_correction":
            par = pro / "image" / "LC" / "params_uniform"
            par.mkdir(parents=True)
            shape = a.shape
            np.save(par / "image_raw_mean.npy", np.full(shape, 0.3, np.float32))
            np.save(par / "image_raw_std.npy", np.full(shape, 0.2, np.float32))
        refused = c17.quietly(call_process, c17.args_for(str(raw)))
        rec.step()
        out = sorted((pro / "image" / "LC").glob("corrected_*/*.png"))
        if refused or len(out) != 1:
            rec.fail("refused", "a %s camera of %d bit cannot be processed with %s" % (ctype, depth, method))
            return
        g = imread(out[0]).astype(float)
        rec.out(g.tobytes())
        x = np.array(smp) / float(top)
        if method == "colour_correction":
            x = 12.92 * x if (x[: 1 if ctype == "grayscale" else 3] < 0.0031308).all() else 1.055 * x ** (1 / 1.5) - 0.055
        else:
            x = x * [1, 0.5, 0.25]
        e = np.clip(np.floor(x * 255), 0, 255)
        if ctype == "grayscale":
            if g.shape != (H, W) or np.abs(g - e[0]).max() > 1:
                rec.fail("gray", "gray level %s becomes %s, expected %s" % (smp[0], g.ravel()[0], e[0]))
        elif g.shape != (H, W, 3) or np.abs(g - e).max() > 1.01:
            rec.fail("colour", "scene with red, green, blue = %s in a %s camera (%s) becomes %s, expected %s" % (smp, ctype, method, g[H // 2, W // 2] if g.ndim == 3 else g.shape, e))


def write_case(case, rec):
    """an output image that cannot be read back is written again"""
    from imageio.v2 import imread
    from correct_images.tools import file_handlers as F

    fails, colour, fmt, fault = case
    rec.state(case)
    img = np.arange(8 * 12, dtype=np.uint8).reshape(8, 12)
    img = np.dstack([img, img + 50, img + 100]) if colour else img
    n = [0]
    real, really = F.imread, F.imwrite

    def flaky(f, *a, **k):
        n[0] += 1
        if n[0] <= fails:
            raise OSError("not readable")
        return real(f, *a, **k)

    def torn(f, *a, **k):
        n[0] += 1
        if n[0] <= fails:
            open(str(f), "wb").write(b"\x89PNG")
        else:
            really(f, *a, **k)

    with mc.scratch() as root:
        if fault == "read":
            F.imread = flaky
        else:
            F.imwrite = torn
        try:
            p = F.write_output_image(img, "some.name", root, fmt)
        finally:
            F.imread, F.imwrite = real, really
        rec.step()
        if p != root / ("some.name." + fmt):
            rec.fail("name", "image is written as %s" % p)
        elif not p.exists() or not np.array_equal(imread(p), img):
            rec.fail("content", "image written after %d failed attempts is not the one given" % fails)


# ------------------------------------------------------------------ rescaling
def rescale_case(case, rec):
    from correct_images.corrections import rescale

    (w, h), alt, (fx, fy), target, keep, method, gray = case
    rec.state(case)
    a = (np.arange(h)[:, None] * 3 + np.arange(w)[None] * 2).astype(np.uint8)
    if not gray:
        a = np.dstack([a, a + 20, a + 40])
    g = rescale(a.copy(), method, target, alt, fx, fy, keep)
    rec.step()
    rec.out(g.tobytes())
    sx, sy = alt / fx / target, alt / fy / target
    if keep:
        size = (h, w)
    else:
        size = (int(h * sy), int(w * sx))
    if max(abs(x - y) for x, y in zip(g.shape[:2], size)) > (0 if keep else 1) or g.shape[2:] != a.shape[2:]:
        rec.fail("size", "%dx%d pixels of %.4f x %.4f m at %g m become %s pixels instead of %s" % (w, h, alt / fx, alt / fy, target, g.shape, size))
        return
    if sx == 1 and sy == 1 and not np.array_equal(g, a):
        rec.fail("same", "an image that already has the resolution is changed")
    board = np.where(a % 2 == 0, 200, 0).astype(np.uint8)
    if method == "nearest_neighbour" and not set(np.unique(rescale(board, method, target, alt, fx, fy, keep))) <= {0, 200}:
        rec.fail("nearest", "nearest neighbour makes pixel values that are not in the image")
    # the centre of the image stays in the centre, left/right and up/down are kept
    f = g.astype(float) if gray else g[:, :, 0].astype(float)
    if method in ("bilinear", "nearest_neighbour") and min(f.shape) >= 4:
        zoom_y, zoom_x = (min(1.0, 1 / sy), min(1.0, 1 / sx)) if keep and sx >= 1 and sy >= 1 else (1.0, 1.0)
        ey = (h - 1) * 3 * zoom_y
        ex = (w - 1) * 2 * zoom_x
        my, mx = f[-1].mean() - f[0].mean(), f[:, -1].mean() - f[:, 0].mean()
        if abs(my - ey) > 0.25 * ey + 6 or abs(mx - ex) > 0.25 * ex + 6:
            rec.fail("content", "brightness changes by %.1f, %.1f across the image instead of %.1f, %.1f" % (my, mx, ey, ex))
        if abs(f.mean() - a.reshape(h, w, -1)[:, :, 0].mean()) > 6:
            rec.fail("centre", "the image is not scaled about its centre")


def rescale_files_case(case, rec):
    """rescale command: every image is scaled with its own altitude"""
    from imageio.v2 import imread, imwrite
    from correct_images.correct_images import call_rescale
    from correct_images import correct_images as M

    names, missing, keep, gray, ext, (fx, fy) = case
    rec.state(case)
    with mc.scratch() as root:
        built = c17.build(root, [""], "altitude", "process", spare=False)
        raw, pro, _ = built[0]
        cfg = root / "configuration" / "y" / "dive0"
        st = c17.settings("altitude", "colour_correction", False, "process")
        ren = next(pro.glob("json_renav_*"))
        st["rescale"] = [{"camera_name": "LC", "path": "image/LC/corrected", "distance_path": ren.name, "interpolate_method": "bicubic", "target_pixel_size": 2.0, "maintain_pixels": keep, "output_folder": "image/LC/rescaled"}]
        (cfg / "correct_images.yaml").write_text(yaml.safe_dump(st))
        src = pro / "image/LC/corrected"
        src.mkdir(parents=True)
        (pro / "calibration").mkdir()
        (pro / "calibration" / "mono_LC.yaml").write_text(CAL.replace("[ 100., 0., 30., 0., 100.,", "[ %r, 0., 30., 0., %r," % (fx, fy)))
        rows, alts = ["relative_path,northing [m],altitude [m],timestamp [s]"], {}
        for k, n in enumerate(names):
            alts[n] = 2.0 + 0.5 * k
            if k not in missing:
                rows.append("image/LC/%s.raw,0,%r,0" % (n, alts[n]))
            a = (np.arange(40)[:, None] * 2 + np.arange(60)[None] + k).astype(np.uint8)
            imwrite(src / (n + ext), a if gray else np.dstack([a, a, a]))
        (ren / "csv/ekf/auv_ekf_LC.csv").write_text("\n".join(rows) + "\n")
        before = c17.raw_state(built), mc.snapshot(src)
        c17.quietly(call_rescale, argparse.Namespace(path=str(raw), suffix=""))
        rec.step()
        if (c17.raw_state(built), mc.snapshot(src)) != before:
            rec.fail("sources", "rescaling changes its input")
        for k, n in enumerate(names):
            f = pro / "image/LC/rescaled" / (n + ext)
            if k in missing:
                continue
            if not f.exists():
                rec.fail("missing", "image %s (others: %s) is not rescaled" % (n, [x for x in names if x != n]))
                continue
            g = imread(f)
            rec.out((n, g.tobytes()))
            e = (40, 60) if keep else (int(40 * (alts[n] / fy) / 0.02), int(60 * (alts[n] / fx) / 0.02))
            if max(abs(x - y) for x, y in zip(g.shape[:2], e)) > (0 if keep else 1):
                rec.fail("altitude", "image %s at %.1f m becomes %s pixels instead of %s" % (n, alts[n], g.shape[:2], e))
        stray = [n for k, n in enumerate(names) if k in missing and (pro / "image/LC/rescaled" / (n + ext)).exists() and not any(m != n and m in n for j, m in enumerate(names) if j not in missing)]
        if stray:
            rec.fail("unknown", "images without altitude are rescaled: %s" % stray)


CAL = """%YAML:1.0
---
image_width: 60
image_height: 40
camera_name: LC
camera_matrix: !!opencv-matrix
   rows: 3
   cols: 3
   dt: d
   data: [ 100., 0., 30., 0., 100., 20., 0., 0., 1. ]
distortion_model: plumb_bob
distortion_coefficients: !!opencv-matrix
   rows: 1
   cols: 5
   dt: d
   data: [ 0., 0., 0., 0., 0. ]
rectification_matrix: !!opencv-matrix
   rows: 3
   cols: 3
   dt: d
   data: [ 1., 0., 0., 0., 1., 0., 0., 0., 1. ]
projection_matrix: !!opencv-matrix
   rows: 3
   cols: 4
   dt: d
   data: [ 100., 0., 30., 0., 0., 100., 20., 0., 0., 0., 1., 0. ]
"""


def main():
    import imageio
    import imageio.v2 as v2

    real = v2.imwrite

    def imwrite(uri, im, format=None, **k):
        # the freeimage plugin is not installed here; the ordinary png writer stands in for it
        return real(uri, im, format=None if format == "PNG-FI" else format, **k)

    v2.imwrite = imwrite
    ck = mc.new_check("C19")
    c17.setup_code()
    D.stub_version()
    import imageio.plugins.freeimage as fi

    fi.download = lambda *a, **k: None
    ck.explore(
        "image files: every sample value at every bit depth",
        [("uint8", d, c, "png") for d in (8, 10) for c in (False, True)]
        + [("uint16", d, c, e) for d in range(8, 17) for c in (False, True) for e in ("png", "tif") if not (c and e == "png")],
        loader_case,
    )
    ck.explore("packed raw files: every byte value at every position", [(s, b, r) for s in range(4) for b in range(3) for r in (0, 0xFFFFFF, 0x0A0B0C)], xviii_case)
    ck.explore("packed raw files: whole files", [(k, d) for k in (1, 4099) for d in (16, 18, 20)], xviii_file_case)
    rgbs = list(itertools.product(LEVELS, repeat=3))
    sizes = ((8, 8), (10, 6)) if ck.thorough else ((8, 10),)
    ck.explore("Bayer patterns: every colour", [(p, u, c, s) for p in PATTERNS for u in (False, True) for c in rgbs for s in sizes], debayer_case)
    ck.explore(
        "brightness and contrast",
        list(itertools.product((0.0, 0.1, 0.5, 0.9), (1e-6, 0.05, 0.5), (0, 10, 30, 100), (0, 3, 20, 100), (False, True))),
        stat_case,
    )
    mats = [[[2, 0, 0], [0, 3, 0], [0, 0, 4]], [[1, 0.1, 0.2], [-0.3, 1, 0.4], [0.5, -0.6, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]]]
    ck.explore("manual balance", [(m, list(o), g) for m in mats for o in itertools.product((0.0, 0.1, -0.2), repeat=3) for g in (False, True)], balance_case)
    gl = (0.0, 0.001, 0.003, 0.0032, 0.01, 0.2, 0.5, 1.0)
    ck.explore("debayer_folder script: every colour", [(p, u, c, s) for p in PATTERNS for u in (False, True) for c in rgbs for s in (8, 16)], folder_script_case)
    ck.explore("gamma", [c for n in range(1, 5 if ck.thorough else 4) for c in itertools.product(gl, repeat=n)], gamma_case)
    base = list(itertools.product(("rggb", "grbg", "bggr", "gbrg", "rgb", "bgr", "grayscale"), ("colour_correction", "manual_balance")))
    scenes = [(0.9, 0.4, 0.1), (0.1, 0.3, 0.8), (0.0, 1.0, 0.0), (0.002, 0.001, 0.0)]
    kinds = [("uint8", 8, "png"), ("uint16", 12, "tif"), ("uint16", 16, "tif"), ("uint16", 16, "png")]
    cases = []
    for i, (t, m) in enumerate(base):
        for j, s in enumerate(scenes):
            for k, (d, b, e) in enumerate(kinds):
                if e == "png" and d == "uint16" and t in ("rgb", "bgr"):
                    continue
                if ck.thorough or (j + k) % 4 == 0 or (j, k) in ((0, 1), (1, 0)):
                    cases.append((t, d, b, m, s, e))
    ck.explore("process command: evenly coloured scenes in every camera type", cases, scene_case)
    ck.explore("output files: failing attempts", [(n, c, f, w) for n in range(0, 5) for c in (False, True) for f in ("png", "tif") for w in ("read", "write")], write_case)
    geo = list(itertools.product(((40, 24), (30, 30)), (1.0, 2.0, 4.5), ((100.0, 100.0), (100.0, 80.0)), (0.01, 0.02, 0.05), (False, True), ("bicubic", "bilinear", "nearest_neighbour", "lanczos"), (False, True)))
    ck.explore("rescaling: sizes", geo, rescale_case)
    sets = [("a1", "b1"), ("im1", "im10"), ("im10", "im1", "im100"), ("x_1", "1"), ("a_b", "b"), ("b", "c_b_a"), ("p1", "q1", "r1")]
    ck.explore(
        "rescale command: every image with its own altitude",
        [(s, m, k, g, e, f) for s in sets for m in [()] + [(i,) for i in range(len(s))] for k in (False, True) for g in (False, True) for e, f in ((".png", (100.0, 100.0)), (".tif", (100.0, 80.0)), (".jpg", (70.0, 100.0)))],
        rescale_files_case,
    )
    ck.finish()


if __name__ == "__main__":
    main()
