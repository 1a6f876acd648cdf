"""C10: depths are tide corrected exactly when the tide record covers them."""
import copy
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D

DAY = "20170714"
SOD0 = 9600  # 02:40:00
STEP = 600
E0 = 1499990400.0


def iso(sod):
    return "2017-07-14T%02d:%02d:%02dZ" % (sod // 3600, sod // 60 % 60, sod % 60)


def tide_at(t, times, heights):
    if t < times[0] or t > times[-1]:
        return None
    for k in range(len(times)):
        if t == times[k]:
            return heights[k]
    for k in range(len(times) - 1):
        if times[k] < t < times[k + 1]:
            w = (t - times[k]) / (times[k + 1] - times[k])
            return heights[k] + w * (heights[k + 1] - heights[k])


def log(sods, usbl):
    ph = []
    for k, s in enumerate(sods):
        ph += D.phins_burst(s, depth=20.0 + 1.5 * k, alt=5.0 + k, dvl_lag=0.0, depth_lag=0.0)
    ul = []
    if usbl:
        for k, s in enumerate(sods):
            ul.append(D.usbl_line("2017-07-14", "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60), "AUV", 50.001, -1.001, 30.0 + k, 10.0, 20.0, 33.0))
    return ph, ul


def pol(sod):
    return "14/ 7/2017  %02d:%02d" % (sod // 3600, sod // 60 % 60)


def run(sods, usbl, tide, files=None, fmt="NOC_CTI"):
    from auv_nav.parse import parse_single

    m = D.raw_mission(DAY, images=False, usbl=usbl, tide=tide)
    if tide:
        m["tide"]["format"] = fmt
    ph, ul = log(sods, usbl)
    with mc.scratch() as root:
        raw, pro, cfg = D.make_raw(root, mission=m, phins_lines=ph, usbl_lines=ul, tide_files=files)
        parse_single(str(raw), True)
        return D.nav_json(pro)


def case(c, rec):
    offsets, heights, order, split, usbl, fmt = c
    n = len(heights)
    times = [SOD0 + STEP * k for k in range(n)]
    sods = [SOD0 + o for o in offsets]
    if fmt == "NOC_CTI":
        rows = ["%s,%.4f,0.1,20" % (iso(times[k]), heights[k]) for k in order]
    else:
        rows = ["%s     %6.2f      0.14       51" % (pol(times[k]), heights[k]) for k in order]
    files = {"a.csv": rows[:split], "b.csv": rows[split:]} if split else {"a.csv": rows}
    plain = run(sods, usbl, False)
    got = run(sods, usbl, True, files, fmt)
    rec.step(2)
    rec.state((offsets, heights, fmt))
    want = copy.deepcopy(plain)
    for it in want:
        t = it["epoch_timestamp"] - E0
        h = tide_at(t, times, heights) if n else None
        if h is None:
            continue
        if it["category"] == "depth":
            it["data"][0]["depth"] -= h
        elif it["category"] == "usbl":
            for d in it["data_target"]:
                if "depth" in d:
                    d["depth"] -= h
    rec.out(sorted(repr(mc.canon(i)) for i in got))
    if len(got) != len(want):
        rec.fail("count", "depth at %s, tide at %s: %d records with tide data, %d without" % (sods, times, len(got), len(want)))
        return
    key = lambda i: (i["epoch_timestamp"], i["category"], i.get("frame", ""))
    for g, w in zip(sorted(got, key=key), sorted(want, key=key)):
        if not same(g, w):
            rec.fail("depth" if g["category"] in ("depth", "usbl") else "other:" + g["category"],
                     "tide %s at %s (row order %s): record at %s is %s, expected %s" % (heights, times, order, g["epoch_timestamp"] - E0, brief(g), brief(w)))
            return


def brief(i):
    return str(i.get("data") or i.get("data_target"))[:300]


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return mc.close(a, b, 1e-12, 1e-6)
    return a == b


def body():
    ck = mc.new_check("C10", assumptions=["tide rows have distinct times; depth and position records carry one time each"])
    mc.silence_console()
    D.stub_version()
    D.no_parse_plots()
    import auv_nav.parse  # noqa: F401

    H = [0.7, -1.3, 2.1, 0.4]
    cases = []
    # every set of up to three depth samples relative to a record of n tide samples
    for n in (0, 1, 2, 3, 4):
        place = [-120] + [v for k in range(max(n, 1)) for v in (STEP * k, STEP * k + 1, STEP * k + 150, STEP * k + 599)][: 4 * max(n, 1) - 2]
        place = sorted(set(place + [STEP * max(n - 1, 0) + 1, STEP * max(n - 1, 0) + 900]))
        full = tuple(place)
        orders = list(itertools.permutations(range(n))) if n <= (4 if ck.thorough else 3) else [tuple(range(n)), tuple(range(n))[::-1], (2, 0, 3, 1)]
        for o in orders:
            for split in range(0, n):
                for usbl in (False, True):
                    cases.append((full, tuple(H[:n]), o, split, usbl))
        if n == 0:
            cases += [(full, (), (), 0, u) for u in (False, True)]
        for k in (1, 2) + ((3,) if ck.thorough else ()):
            for sub in itertools.combinations(full, k):
                cases.append((sub, tuple(H[:n]), tuple(range(n)), 0, k == 1))
    # heights of every sign pattern
    for hs in itertools.product([-0.8, 0.0, 1.7], repeat=3):
        cases.append(((-1, 0, 1, 300, 599, 600, 601, 900, 1199, 1200, 1201), hs, (0, 1, 2), 0, True))
    cases = [c + ("NOC_CTI",) for c in cases]
    # logs that are not in order of time
    some = (-120, 0, 150, 600, 1199, 1201)
    for k in (2, 3):
        for sub in itertools.combinations(some, k):
            for p in itertools.permutations(sub):
                if p != sub:
                    cases.append((p, tuple(H[:3]), (0, 1, 2), 0, True, "NOC_CTI"))
    for o in itertools.permutations(range(3)):
        for split in range(3):
            for hs in ((0.7, -1.3, 2.1), (-0.05, 10.25, 0.0)):
                cases.append(((-120, 0, 1, 150, 599, 600, 601, 1199, 1200, 1201), hs, o, split, True, "NOC_polpred"))
    ck.explore("tide", cases, case, note="format x placements of depth and position times relative to tide records of 0-4 samples x row order x file split")
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
