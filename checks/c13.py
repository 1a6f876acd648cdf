"""C13: raw, processed and configuration folders map one-to-one."""
import itertools
import os
import sys
from pathlib import Path

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

MARK = ("raw", "processed", "configuration")
OTHER = ("d", "raw2", "myraw", "Raw", "processed_old", "configuration.yaml", "nav", "raw.tif")


def getters():
    import oplab

    return {"raw": oplab.get_raw_folder, "processed": oplab.get_processed_folder, "configuration": oplab.get_config_folder}


def refuses(fn, p):
    try:
        r = fn(p)
    except SystemExit as e:
        return e.code not in (0, None), None
    return False, r


def expected(parts, name):
    return tuple(name if q in MARK else q for q in parts)


def mapping(case, rec):
    parts, exist, form, counter = case
    g = getters()
    with mc.scratch() as root:
        p = root.joinpath(*parts)
        if exist == "dir":
            p.mkdir(parents=True)
        elif exist == "file":
            p.parent.mkdir(parents=True, exist_ok=True)
            if p.exists():
                return
            p.write_text("x")
        if counter:  # the counterparts are there already
            for n in MARK:
                q = root.joinpath(*expected(parts, n))
                if not q.exists():
                    (q if exist != "file" else q.parent).mkdir(parents=True, exist_ok=True)
                    if exist == "file":
                        q.write_text(n)
        before = mc.snapshot(root)
        arg = {"str": str(p), "path": p, "dots": os.path.join(str(p.parent), "zz", "..", p.name), "slash": str(p) + "/"}.get(form)
        nmark = sum(q in MARK for q in parts)
        cwd = os.getcwd()
        if form == "relative":
            arg = os.path.join(*parts)
            os.chdir(root)
        try:
            for n, fn in g.items():
                refused, r = refuses(fn, arg)
                rec.step()
                rec.state((parts, n, exist, form))
                if nmark == 0:
                    if not refused:
                        rec.fail("not-refused", "%s is in no dataset, but its %s folder is %s" % (p, n, r))
                    continue
                if refused:
                    rec.fail("refused", "%s refused when looking for its %s folder" % (p, n))
                    continue
                r = Path(r)
                rec.out((n, str(r.relative_to(root)) if root in r.parents else str(r)[:3]))
                if nmark == 1:
                    want = root.joinpath(*expected(parts, n))
                    if r != want:
                        rec.fail("wrong-folder", "%s folder of %s is %s, not %s" % (n, arg, r, want))
                        continue
                    for m, fm in g.items():
                        _, back = refuses(fm, r)
                        if back is None or Path(back) != root.joinpath(*expected(parts, m)):
                            rec.fail("not-inverse", "%s folder of %s is %s" % (m, r, back))
                else:
                    # several candidate components: at most one changes, and asking again changes nothing
                    a, b = p.parts, r.parts
                    diff = [(x, y) for x, y in zip(a, b) if x != y]
                    if len(a) != len(b) or len(diff) > 1 or any(x not in MARK or y != n for x, y in diff) or n not in b:
                        rec.fail("several-changed", "%s folder of %s is %s" % (n, p, r))
                    elif refuses(fn, r)[1] != r:
                        rec.fail("not-idempotent", "%s folder of %s is %s, whose %s folder is another" % (n, p, r, n))
        finally:
            os.chdir(cwd)
        if mc.snapshot(root) != before:
            rec.fail("side-effect", "looking for the counterparts of %s changed the disk: %s" % (p, sorted(set(mc.snapshot(root)) ^ set(before))[:3]))


def linked(case, rec):
    """A path through a symbolic link is the folder it points to."""
    link, dest = case
    g = getters()
    with mc.scratch() as root:
        p = root.joinpath(*dest)
        p.mkdir(parents=True)
        ln = root / link
        ln.parent.mkdir(parents=True, exist_ok=True)
        ln.symlink_to(p)
        for n, fn in g.items():
            refused, r = refuses(fn, ln / "x")
            rec.step()
            rec.state((link, dest, n))
            rec.out((n, refused))
            want = root.joinpath(*expected(dest, n)) / "x"
            if refused or Path(r) != want:
                rec.fail("link", "%s -> %s: %s folder is %s, not %s" % (ln, p, n, r, want))


def lists(case, rec):
    import oplab

    with mc.scratch() as root:
        ps = [root.joinpath(*c) for c in case]
        for name, fn in (("raw", oplab.get_raw_folders), ("processed", oplab.get_processed_folders)):
            want = [root.joinpath(*expected(c, name)) for c in case]
            got = fn(list(ps))
            rec.step()
            rec.out(name)
            if [Path(x) for x in got] != want:
                rec.fail("list", "%s folders of %s are %s" % (name, ps, got))
            one = fn(ps[0])
            if Path(one) != want[0]:
                rec.fail("list", "%s folder of %s is %s" % (name, ps[0], one))
        rec.state(case)


SHAPES = ["a", "b", "d/a", "d/b", "d/e/a", "d/e/f/a", "g/a", ".h", ".k/a"]


def listing(case, rec):
    """Every file of a tree is listed exactly once; nothing else is."""
    from oplab.folder_structure import get_file_list

    files, empty = case
    with mc.scratch() as root:
        for f in files:
            (root / f).parent.mkdir(parents=True, exist_ok=True)
            (root / f).write_text(f)
        for d in empty:
            (root / d).mkdir(parents=True, exist_ok=True)
        got = sorted(str(Path(x).relative_to(root)) for x in get_file_list(str(root)))
        rec.step()
        rec.state(case)
        rec.out(got)
        if got != sorted(files):
            rec.fail("listing", "files %s (empty folders %s) listed as %s" % (sorted(files), empty, got))


def copying(case, rec):
    target, content, old = case
    with mc.scratch() as root:
        src = root / "raw" / "d" / "mission.yaml"
        src.parent.mkdir(parents=True)
        src.write_bytes(content)
        dst = root.joinpath(*target)
        if old is not None:
            dst.parent.mkdir(parents=True, exist_ok=True)
            dst.write_bytes(old)
        before = mc.snapshot(root)
        src.copy(dst)
        rec.step()
        rec.state(case)
        after = mc.snapshot(root)
        rec.out(sorted(after))
        new = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
        allowed = {str(dst.relative_to(root))} | {str(q.relative_to(root)) for q in dst.parents if root in q.parents}
        if dst.read_bytes() != content:
            rec.fail("copy", "copy to %s differs from its source" % (target,))
        if not new <= allowed:
            rec.fail("copy-elsewhere", "copying to %s also changed %s" % (target, sorted(new - allowed)))


def valid(case, rec):
    from oplab import valid_dive

    with mc.scratch() as root:
        p = root / "processed" / "d"
        p.mkdir(parents=True)
        for f in case:
            (p / f).parent.mkdir(parents=True, exist_ok=True)
            (p / f).write_text("[]")
        got = bool(valid_dive(p))
        rec.step()
        rec.state(case)
        rec.out(got)
        if got != ("nav/nav_standard.json" in case):
            rec.fail("valid", "a dive holding %s is %staken for a parsed dive" % (list(case), "" if got else "not "))


def body():
    ck = mc.new_check("C13", assumptions=["no folder above the scratch folder is called raw, processed or configuration"])
    mc.silence_console()
    import oplab  # noqa: F401

    T = ck.thorough
    cases = []
    alpha = MARK + OTHER
    for n in range(1, 5 if not T else 6):
        for parts in itertools.product(alpha if n <= 3 else MARK + OTHER[:3], repeat=n):
            k = sum(q in MARK for q in parts)
            if k == 0 and n > 2:
                continue
            if n <= 3:
                for exist in ("no", "dir", "file"):
                    forms = ("str", "path", "dots", "slash", "relative") if k == 1 and n <= 2 or n == 3 and exist == "dir" and k == 1 and len(set(parts)) == 3 else ("str",)
                    for form in forms:
                        for counter in (False, True) if exist != "no" and k == 1 else (False,):
                            cases.append((parts, exist, form, counter))
            else:
                cases.append((parts, "no", "str", False))
    ck.explore("mapping", cases, mapping, note="paths of up to %d components over markers, near-markers and plain names" % (5 if T else 4))
    ck.explore("links", [(l, d) for l in ("link", "raw/link", "processed/link", "a/configuration/link") for d in itertools.product(alpha[:6], repeat=2) if sum(q in MARK for q in d) == 1], linked, note="paths through symbolic links")
    single = [p for n in (1, 2, 3) for p in itertools.product(("raw", "processed", "configuration", "d"), repeat=n) if sum(q in MARK for q in p) == 1]
    ck.explore("lists", [t for n in (1, 2) for t in itertools.product(single, repeat=n)], lists, note="lists of paths")
    trees = []
    for n in range(0, 9 if T else 6):
        for fs in itertools.combinations(SHAPES, n):
            for e in ((), ("z",), ("d/z/y",)):
                trees.append((fs, e))
    ck.explore("listing", trees, listing, note="every tree over 8 possible files and empty folders")
    targets = [t + (f,) for n in (1, 2, 3) for t in itertools.product(("processed", "d", "log"), repeat=n) for f in ("m.yaml", "raw")]
    ck.explore("copy", [(t, c, o) for t in targets for c in (b"", b"a: 1\n", bytes(range(256))) for o in (None, b"old contents")], copying, note="file copies into existing and missing folders")
    opts = ["nav/nav_standard.json", "nav_standard.json", "nav/other.json", "nav2/nav_standard.json"]
    ck.explore("parsed dive", [c for n in range(5) for c in itertools.combinations(opts, n)], valid, note="what is in the folder")
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
