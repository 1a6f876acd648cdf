"""C18: the statistics behind the correction parameters are those of exactly the images they describe."""
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import numpy as np
import yaml

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c17

ALPHA = (0.0, 0.25, 0.5, 0.95, 0.96, 1.0, 2.0)


def stack(prefix, shape):
    """images: the first len(prefix) are flat, the last two run over the whole alphabet square"""
    n = len(ALPHA)
    last = np.array(list(itertools.product(ALPHA, ALPHA)), np.float32)
    h = n
    w = n
    imgs = [np.full((h, w), p, np.float32) for p in prefix] + [last[:, 0].reshape(h, w), last[:, 1].reshape(h, w)]
    if shape == "hw":
        return imgs
    if shape == "hw1":
        return [i[:, :, None] for i in imgs]
    return [np.dstack([i, i.T, i[::-1]]) for i in imgs]


def running_case(case, rec):
    """corrected image mean/std: every sequence of pixel values"""
    from correct_images.tools.numerical import RunningMeanStd

    prefix, shape, ask = case
    rec.state(case)
    imgs = stack(prefix, shape)
    r = RunningMeanStd(list(imgs[0].shape))
    for k, i in enumerate(imgs):
        keep = i.copy()
        r.compute(i)
        if ask:
            r.mean, r.std
        rec.step()
        if not np.array_equal(i, keep):
            rec.fail("altered", "the image is changed by being counted")
    a = np.array([np.squeeze(i) for i in imgs], np.float64)
    ok = a < 0.955  # saturated is above 0.95
    n = ok.sum(0)
    mean = np.where(n > 0, np.where(ok, a, 0).sum(0) / np.maximum(n, 1), 0)
    std = np.sqrt(np.where(ok, (a - mean) ** 2, 0).sum(0) / np.maximum(n, 1))
    gm, gs = np.asarray(r.mean), np.asarray(r.std)
    rec.out((gm.tobytes(), gs.tobytes()))
    if gm.shape != mean.shape or gs.shape != mean.shape:
        rec.fail("shape", "statistics have shape %s for images %s" % (gm.shape, imgs[0].shape))
        return
    bad = (np.abs(gm - mean) > 1e-5) & (n > 0)
    if bad.any():
        p = tuple(np.argwhere(bad)[0])
        rec.fail("mean", "mean of %s (saturated above 0.95) is %s, expected %s" % (a[(slice(None),) + p], gm[p], mean[p]))
    bad = (np.abs(gs - np.maximum(std, 1e-6)) > 1e-4) & (n > 0)
    if bad.any():
        p = tuple(np.argwhere(bad)[0])
        rec.fail("std", "std of %s (saturated above 0.95) is %s, expected %s" % (a[(slice(None),) + p], gs[p], std[p]))
    if not (np.isfinite(gm).all() and (gs > 0).all()):
        rec.fail("unusable", "statistics are not finite or std is not positive (they are divided by)")


def batch_case(case, rec):
    """raw image / depth map mean and std over files: every sequence of pixel values"""
    from correct_images.tools.numerical import running_mean_std

    prefix, shape, zeroes, sized = case
    rec.state(case)
    imgs = stack(prefix, shape)
    asked = []

    def load(k):
        asked.append(k)
        return imgs[k]

    def load_sized(k, width, height):
        asked.append(k)
        if (width, height) != (11, 13):
            rec.fail("size", "loader asked for %sx%s instead of 11x13" % (width, height))
        return imgs[k]

    files = list(range(len(imgs)))
    m, s = running_mean_std(files, loader=load_sized, width=11, height=13, ignore_zeroes=zeroes) if sized else running_mean_std(files, loader=load, ignore_zeroes=zeroes)
    rec.step()
    rec.out((m.tobytes(), s.tobytes()))
    a = np.array(imgs, np.float64)
    ok = a != 0 if zeroes else np.ones(a.shape, bool)
    n = ok.sum(0)
    mean = np.where(ok, a, 0).sum(0) / np.maximum(n, 1)
    std = np.sqrt(np.where(ok, (a - mean) ** 2, 0).sum(0) / np.maximum(n, 1))
    for what, g, e in (("mean", m, mean), ("std", s, std)):
        if g.shape != e.shape:
            rec.fail("shape", "%s has shape %s for images %s" % (what, g.shape, e.shape))
            continue
        bad = np.abs(g - e) > 1e-4
        if bad.any():
            p = tuple(np.argwhere(bad)[0])
            rec.fail(what, "%s of %s%s is %s, expected %s" % (what, a[(slice(None),) + p], " without zeroes" if zeroes else "", g[p], e[p]))


def robust_case(case, rec):
    """median, plain and trimmed mean/std of a stack of images: every arrangement"""
    from correct_images.tools import numerical as N

    seqs, shape = case
    rec.state((len(seqs), seqs[0], shape))
    n = len(seqs[0])
    a = np.array(seqs, np.float32).T  # n x pixels
    pix = a.shape[1]
    w = next(d for d in range(int(math.isqrt(pix)), 0, -1) if pix % d == 0)
    a = a.reshape(n, pix // w, w)
    if shape == "hwc":
        a = np.stack([a, a[:, ::-1], a[:, :, ::-1]], axis=3)
    elif shape == "hw1":
        a = a[..., None]
    d = a.astype(np.float64)
    keep = a.copy()

    def compare(what, g, e, tol=1e-5):
        g = np.asarray(g)
        rec.step()
        rec.out((what, g.tobytes()))
        if g.squeeze().shape != e.squeeze().shape:
            rec.fail("shape", "%s has shape %s instead of %s" % (what, g.shape, e.shape))
            return
        bad = ~(np.abs(g.squeeze() - e.squeeze()) <= tol)
        if bad.any():
            p = tuple(np.argwhere(bad)[0])
            rec.fail(what, "%s of %s is %s, expected %s" % (what, d.squeeze()[(slice(None),) + p], g.squeeze()[p], e.squeeze()[p]))

    compare("median", N.median_array(a), np.median(d, axis=0))
    for t in (0, 0.2, 0.4):
        cut = int(round(n * t / 2)) if t else 0
        if t and abs(n * t / 2 - cut) > 1e-9:
            continue
        srt = np.sort(d, axis=0)[cut : n - cut]
        m, s = N.image_mean_std_trimmed(a, t)
        compare("trimmed mean", m, srt.mean(0))
        compare("trimmed std", s, srt.std(0), 2e-4)
        compare("trimmed mean", N.image_mean_std_trimmed(a, t, calculate_std=False), srt.mean(0))
    if shape == "hw":
        m, s = N.mean_std(a)
        compare("mean", m, d.mean(0))
        compare("std", s, d.std(0), 2e-4)
        compare("mean", N.mean_std(a, calculate_std=False), d.mean(0))
    if not np.array_equal(a, keep):
        rec.fail("altered", "the images are changed by computing their statistics")


BAD = {"z0": (0.0, 0.0), "zi": (3.3, 0.0), "za": (0.0, 0.4), "ni": (3.3, math.nan), "na": (math.nan, 0.4), "nn": (math.nan, math.nan), "ii": (math.inf, 0.4), "neg": (-1.0, 0.4)}


def fit_case(case, rec):
    """attenuation fit: noise-free curves are reproduced, unusable entries do not matter"""
    from correct_images.tools.curve_fitting import curve_fitting

    a, b, c, lo, n, kinds, positions = case
    rec.state(case)
    x = lo + 0.1 * np.arange(n) + 0.05
    y = a * np.exp(b * x) + c
    p = curve_fitting(x.copy(), y.copy(), 3, 2, None)
    rec.step()
    rec.out(p.tobytes())
    if len(p) != 3 or not np.isfinite(p).all() or p[0] <= 0 or p[1] > 0 or p[2] < 0 or p[2] > y.min():
        rec.fail("range", "fit of %g*exp(%g*x)+%g gives parameters %s" % (a, b, c, p))
        return
    worst = np.abs(p[0] * np.exp(p[1] * x) + p[2] - y).max() / y.max()
    if worst > 0.03:
        rec.fail("fit", "fit of %g*exp(%g*x)+%g is off by %.1f %%" % (a, b, c, 100 * worst))
    for kind in kinds:
        for pos in positions:
            X, Y = list(x), list(y)
            for q in sorted(pos, reverse=True):
                X.insert(q % (n + 1), BAD[kind][0])
                Y.insert(q % (n + 1), BAD[kind][1])
            g = curve_fitting(np.array(X), np.array(Y), 3, 2, None)
            rec.step()
            if not np.array_equal(g, p):
                rec.fail("unusable", "unusable entries %s at %s change the fit from %s to %s" % (kind, pos, p, g))


def nofit_case(case, rec):
    from correct_images.tools.curve_fitting import curve_fitting

    rec.state(case)
    X, Y = np.array([BAD[k][0] for k in case]), np.array([BAD[k][1] for k in case])
    p = curve_fitting(X, Y, 20, 3, None)
    rec.step()
    rec.out(p.tobytes())
    if list(p) != [1, 0, 0]:
        rec.fail("nothing", "without any usable measurement the curve is %s instead of constant 1" % p)


def gains_case(case, rec):
    """gain, correction: an image that follows the fitted curve becomes what it would be at the target distance"""
    from correct_images import corrections as C

    a, b, c, target, ch = case
    rec.state(case)
    h, w = 3, 4
    ramp = 1 + 0.1 * np.arange(h * w).reshape(h, w)
    att = np.empty((ch, h, w, 3), np.float32)
    for k in range(ch):
        att[k, :, :, 0] = a * ramp * (k + 1)
        att[k, :, :, 1] = b * ramp
        att[k, :, :, 2] = c * (k + 1)
    at64 = att.astype(np.float64)
    gains = C.calculate_correction_gains(target, att, h, w, ch)
    curve = lambda dist: at64[..., 0] * np.exp(at64[..., 1] * dist) + at64[..., 2]
    rec.step()
    if np.asarray(gains).shape != (ch, h, w) or np.abs(gains - curve(target)).max() > 1e-4 * curve(target).max():
        rec.fail("gains", "gain at %g m is not the curve at that distance" % target)
        return
    for dist in (np.full((h, w), target), 1.0 + 0.5 * np.arange(h * w).reshape(h, w), np.full((h, w), 9.0)):
        img = curve(dist).astype(np.float32)
        img = img[0] if ch == 1 else img.transpose(1, 2, 0)
        keep = img.copy()
        out = np.asarray(C.attenuation_correct(img.copy(), dist, att, gains))
        rec.step()
        rec.out(out.tobytes())
        e = curve(target)
        e = e[0] if ch == 1 else e.transpose(1, 2, 0)
        if out.squeeze().shape != e.squeeze().shape:
            rec.fail("shape", "corrected image has shape %s" % (out.shape,))
        elif np.abs(out.squeeze() - e.squeeze()).max() > 1e-3 * e.max():
            rec.fail("correct", "an image that follows the attenuation curve is not levelled to the target distance")
        # linear in the image
        out2 = np.asarray(C.attenuation_correct(0.5 * keep, dist, att, gains))
        if np.abs(out2 - 0.5 * out).max() > 1e-4 * max(1.0, np.abs(out).max()):
            rec.fail("linear", "half the light does not give half the corrected image")


# ---------------------------------------------------------------- end to end
HB, WB = 10, 12


def bin_picture(k, bright, ch):
    p = (bright + (7 * k) % 11 + np.arange(HB * WB).reshape(HB, WB) % 5).astype(np.uint8)
    return p if ch == 1 else np.dstack([p, p + 30, p + 60])


def member_map(k, alt):
    """depth map of an image: mean near the top of its bin, some pixels unknown (zero)"""
    m = (math.floor(alt * 10 + 1e-6) / 10.0 + 0.07 + 0.0005 * (k % 9)) + 0.004 * ((np.arange(HB * WB).reshape(HB, WB) * 7 + k) % 5 - 2)
    if k % 3 == 0:
        m[k % HB, (k // 3) % WB] = 0.0
    return m


def parse_case(case, rec):
    """parse command with altitudes: per-bin statistics are those of the images of that bin"""
    import matplotlib.pyplot as plt
    from imageio.v2 import imwrite
    from correct_images.correct_images import call_parse

    counts, smoothing, order, ch, metric = case
    rec.state(case)
    lo = c17.LO["parse"]
    members = []  # (bin, altitude)
    for b, n in counts:
        for j in range(n):
            members.append((b, lo + 0.1 * b + 0.02 + 0.06 * (j / max(n, 1)) ** 2))
    if order == "mixed":
        members = members[::2] + members[1::2][::-1]
    elif order == "dives":
        members = members[::3] + members[1::3] + members[2::3][::-1]
    ends = [0, len(members) // 3, len(members)] if order == "dives" else [0, len(members)]
    dive = [d for d in range(len(ends) - 1) for _ in range(ends[d], ends[d + 1])]
    maps = [member_map(k, alt) for k, (_, alt) in enumerate(members)]
    with mc.scratch() as root:
        built = c17.build(root, [""] * (len(ends) - 1), metric, "parse", spare=False)
        st = c17.settings(metric, "colour_correction", False, "parse")
        st["colour_correction"]["smoothing"] = smoothing
        pics = []
        for d, (raw, pro, _) in enumerate(built):
            (root / "configuration" / "y" / ("dive%d" % d) / "correct_images.yaml").write_text(yaml.safe_dump(st))
            if ch == 3:
                (raw / "camera.yaml").write_text(yaml.safe_dump(c17.camera_yaml("rgb")))
            rows = ["relative_path,northing [m],altitude [m],timestamp [s]"]
            for k in range(ends[d], ends[d + 1]):
                b, alt = members[k]
                rel = "image/LC/%s.png" % c17.name(d, k)
                # with depth maps the logged altitude only decides whether the image is used
                rows.append("%s,%r,%r,%r" % (rel, 0.5 * k, alt if metric == "altitude" else 2.5 + 0.05 * ((k * 7) % 13), 1500000000.0 + k))
                pics.append(bin_picture(k, 90 - 6 * b, ch))
                imwrite(raw / rel, pics[-1])
                if metric == "depth_map":
                    f = pro / "3d_reconstruction/depth_maps/gp_smoothed/image/LC" / (c17.name(d, k) + "_depthmap.npy")
                    f.parent.mkdir(parents=True, exist_ok=True)
                    np.save(f, maps[k])
            (next(pro.glob("json_renav_*")) / "csv/ekf/auv_ekf_LC.csv").write_text("\n".join(rows) + "\n")
        before = c17.raw_state(built)
        cwd = os.getcwd()
        os.chdir(str(root))
        try:
            refused = c17.quietly(call_parse, c17.args_for([str(r) for r, _, _ in built]))
        finally:
            os.chdir(cwd)
            plt.close("all")
        rec.step()
        if c17.raw_state(built) != before:
            rec.fail("raw", "parsing changes the raw data")
        if refused:
            rec.fail("refused", "parsing is refused although %d images are selected" % len(members))
            return
        par = built[-1][1] / "image/LC" / ("params_" + metric)
        for _, p, _ in built:
            for n in ("attenuation_parameters.npy", "correction_gains.npy", "image_corrected_mean.npy", "image_corrected_std.npy"):
                f = p / "image/LC" / ("params_" + metric) / n
                if not f.exists() or f.read_bytes() != (par / n).read_bytes():
                    rec.fail("dives", "the dives parsed together do not all get the same %s" % n)
                    return
        im, dm = np.load(par / "images_map.npy"), np.load(par / "distances_map.npy")
        im = np.nan_to_num(im)
        dm = np.nan_to_num(dm)
        want_i, want_d = np.zeros((40, HB * WB, ch)), np.zeros((40, HB * WB))
        for b, n in counts:
            if n < 10:
                continue
            sel = [k for k, m in enumerate(members) if m[0] == b]
            s = np.array([pics[k] / 256.0 for k in sel])
            if smoothing == "mean":
                e = s.mean(0)
            elif smoothing == "median":
                e = np.median(s, axis=0)
            else:
                s = np.sort(s, axis=0)
                cut = int(n * 0.1)
                e = s[cut : int(n * 0.9)].mean(0)
            want_i[b] = e.reshape(HB * WB, ch)
            if metric == "altitude":
                want_d[b] = np.mean([members[k][1] for k in sel])
            else:
                z = np.array([maps[k] for k in sel]).reshape(n, -1)
                want_d[b] = z.sum(0) / np.maximum((z != 0).sum(0), 1)
        if im.shape != want_i.shape or dm.shape != want_d.shape:
            rec.fail("shape", "bins have shape %s %s instead of %s %s" % (im.shape, dm.shape, want_i.shape, want_d.shape))
            return
        for b in range(40):
            if np.abs(im[b] - want_i[b]).max() > 1e-5:
                rec.fail("bin-image", "%s of the images between %.1f and %.1f m is wrong: %s instead of %s" % (smoothing, lo + 0.1 * b, lo + 0.1 * b + 0.1, im[b].ravel()[:3], want_i[b].ravel()[:3]))
            if np.abs(dm[b] - want_d[b]).max() > 1e-5:
                rec.fail("bin-distance", "mean distance of the images between %.1f and %.1f m is %s instead of %s" % (lo + 0.1 * b, lo + 0.1 * b + 0.1, dm[b][:3], want_d[b][:3]))
        att = np.load(par / "attenuation_parameters.npy").astype(np.float64)
        if att.shape != (ch, HB, WB, 3) or not np.isfinite(att).all():
            rec.fail("parameters", "attenuation parameters have shape %s or are not finite" % (att.shape,))
            return
        rec.out(att.tobytes())
        # the curve of every pixel explains the binned measurements of that pixel at least as well as the best constant
        used = [b for b, n in counts if n >= 10]
        for k in range(ch):
            for i in range(HB):
                for j in range(WB):
                    p = att[k, i, j]
                    if used:
                        xs, ys = want_d[used, i * WB + j], want_i[used, i * WB + j, k]
                        r = p[0] * np.exp(p[1] * xs) + p[2] - ys
                        r0 = ys - ys.mean()
                        if (r**2).sum() > (r0**2).sum() * 1.05 + 1e-6:
                            rec.fail("curve", "curve of pixel (%d,%d) channel %d does not follow its binned measurements" % (i, j, k))
                            return
                    elif list(p) != [1, 0, 0]:
                        rec.fail("curve", "curve without any filled bin is %s" % p)
                        return
        target = np.mean([m[1] for m in members]) if metric == "altitude" else np.mean(maps)
        g = att[..., 0] * np.exp(att[..., 1] * target) + att[..., 2]
        got = np.load(par / "correction_gains.npy")
        if got.shape != g.shape or np.abs(got - g).max() > 1e-4 * g.max():
            rec.fail("gains", "gains are not the curve at the mean altitude of the images")
            return
        out = []
        for (b, alt), pic, dmap in zip(members, pics, maps):
            alt = alt if metric == "altitude" else dmap
            x = pic / 256.0
            x = x[None] if ch == 1 else x.transpose(2, 0, 1)
            out.append(g / (att[..., 0] * np.exp(att[..., 1] * alt) + att[..., 2]) * x)
        a = np.array(out).transpose(0, 2, 3, 1)
        ok = a <= 0.95
        n = ok.sum(0)
        mean = np.where(ok, a, 0).sum(0) / np.maximum(n, 1)
        std = np.sqrt(np.where(ok, (a - mean) ** 2, 0).sum(0) / np.maximum(n, 1))
        safe = (np.abs(a - 0.95) > 1e-4).all(0) & (n > 0)
        for what, e in (("mean", mean), ("std", np.maximum(std, 1e-6))):
            s = np.load(par / ("image_corrected_%s.npy" % what))
            rec.out(s.tobytes())
            if s.shape != e.shape or (np.abs(s - e)[safe] > 2e-4).any():
                rec.fail("corrected-" + what, "%s of the corrected images is not that of the selected images corrected with their own altitude" % what)
        left = [p.name for p in root.glob("*.map")] + [p.name for p in root.glob("memmap*")]
        if left:
            rec.fail("left-over", "temporary files are left: %s" % left)


def main():
    ck = mc.new_check("C18")
    c17.setup_code()
    mc.silence_console()
    D.stub_version()
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.savefig = lambda *a, **k: None
    deep = 4 if ck.thorough else 3
    pre = [p for n in range(deep + 1) for p in itertools.product(ALPHA, repeat=n)]
    ck.explore(
        "mean and std of corrected images: sequences of pixel values",
        [(p, s, q) for p in pre for s in ("hw", "hw1", "hwc") for q in (False, True)],
        running_case,
        note="all sequences of 2..%d values of {0,.25,.5,.95,.96,1,2}; pixels above 0.95 are saturated" % (deep + 2),
    )
    ck.explore(
        "mean and std of raw images and depth maps: sequences of pixel values",
        [(p, s, z, w) for p in pre for s in ("hw", "hw1", "hwc") for z in (False, True) for w in (False, True)],
        batch_case,
    )
    vals = (0.0, 0.25, 0.5, 1.0)
    groups = []
    for n in range(2, 7 if ck.thorough else 6):
        every = list(itertools.product(vals, repeat=n))
        groups += [every[i : i + 256] for i in range(0, len(every), 256)]
    ten = [tuple(ALPHA[(i * s + o) % 7] for i in range(10)) for s in range(7) for o in range(7)]
    groups += [ten]
    # every arrangement of two outliers among ten, twenty values
    for n in (10, 20):
        groups.append([tuple(9.0 if i == p else -9.0 if i == q else 0.5 + 0.01 * i for i in range(n)) for p in range(n) for q in range(n) if p != q])
    ck.explore("median, mean and trimmed mean: sequences of pixel values", [(g, s) for g in groups for s in ("hw", "hw1", "hwc")], robust_case)
    grid = list(itertools.product((0.05, 0.3, 0.9, 3.0), (-0.05, -0.2, -0.5, -1.0), (0.0, 0.01, 0.1), (2.0, 4.0), (10, 40)))
    pos = [(0,), (3,), (-1,), (0, 5, 9)]
    kinds = list(BAD)
    cases = [g + (kinds if ck.thorough else kinds[i % 8 : i % 8 + 1], pos if ck.thorough else pos[(i // 8) % 4 :][:1]) for i, g in enumerate(grid)]
    ck.explore("attenuation curve of a pixel", cases, fit_case)
    ck.explore("attenuation curve without usable measurement", [s for n in range(1, 5 if ck.thorough else 4) for s in itertools.product(BAD, repeat=n)], nofit_case)
    ck.explore(
        "gains and levelling",
        list(itertools.product((0.05, 0.3, 0.9, 3.0), (0.0, -0.05, -0.5, -1.0), (0.0, 0.01, 0.1), (1.0, 3.5, 8.0), (1, 3))),
        gains_case,
    )
    sizes = (0, 9, 10, 11)
    bins = [tuple((b, n) for b, n in zip((3, 5, 20), c) if n) for c in itertools.product(sizes, repeat=3)]
    bins = [b for b in bins if sum(n for _, n in b) >= 3]
    e2e = [(b, s, "mixed", 1, "altitude") for b in bins for s in ("mean", "median", "mean_trimmed")] if ck.thorough else [(b, "mean", "mixed", 1, "altitude") for b in bins if sum(n == 10 for _, n in b) != 1][:14]
    full = ((0, 10), (1, 20), (39, 10))
    e2e += [(full, s, o, c, "altitude") for s in ("mean", "median", "mean_trimmed") for o in ("sorted", "mixed") for c in ((1, 3) if ck.thorough else (1,))]
    e2e += [(full, "median", "mixed", 3, "altitude")] if not ck.thorough else []
    e2e += [(full, s, "dives", c, "altitude") for s, c in ((("mean", 1), ("median", 3)) if not ck.thorough else itertools.product(("mean", "median", "mean_trimmed"), (1, 3)))]
    e2e += [(full, s, o, c, "depth_map") for s, o, c in ((("mean", "mixed", 1), ("median", "sorted", 1), ("mean", "mixed", 3)) if not ck.thorough else itertools.product(("mean", "median", "mean_trimmed"), ("mixed", "sorted"), (1, 3)))]
    ck.explore("parse command: images of every distance bin", e2e, parse_case)
    ck.finish()


if __name__ == "__main__":
    main()
