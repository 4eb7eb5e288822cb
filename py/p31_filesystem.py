"""P31: directory helpers and the directory-removing scripts on every small tree, links included.

The code under test deletes trees, so it runs as an unprivileged user, in a scratch directory, behind an audit hook that
refuses (and reports) every change outside that directory.
"""
import builtins
import contextlib
import decimal
import io
import os
import pathlib
import pwd
import re
import shutil
import stat
import sys
import tempfile

import mc
import colorama
colorama.init = lambda *a, **k: None  # it would wrap the streams again in every execution
import arc_utilities.filesystem_utils as fs
from arc_utilities.conversions import parse_file_size

SCRIPTS = {}
for name in ("remove_directories_with_few_files", "remove_small_directories"):
    p = f"{os.environ['VERIF_REPO']}/scripts/{name}.py"
    SCRIPTS[name] = compile(open(p).read(), p, "exec")

BASE = None   # directory shared by the workers
ROOT = None   # this worker's directory
guarded = False


def inside(path, dir_fd=None):
    if isinstance(path, int):
        return True
    path = os.fsdecode(path)
    if not os.path.isabs(path):
        top = os.readlink(f"/proc/self/fd/{dir_fd}") if isinstance(dir_fd, int) and dir_fd >= 0 else os.getcwd()
        path = os.path.join(top, path)
    full = os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
    return full.startswith(ROOT + "/")


def hook(event, args):
    global guarded
    if not guarded:
        return
    ok = True
    if event in ("os.remove", "os.rmdir", "os.mkdir", "os.chmod", "os.chown", "os.truncate", "os.utime"):
        fd = args[1] if event in ("os.remove", "os.rmdir") and len(args) > 1 else args[2] if len(args) > 2 else -1
        ok = inside(args[0], fd)
    elif event in ("os.rename", "os.link", "os.symlink"):
        ok = inside(args[1]) and (event == "os.symlink" or inside(args[0]))
    elif event == "open":
        mode, flags = args[1], args[2]
        if (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) or (
                isinstance(mode, str) and set(mode) & set("wax+")):
            ok = args[0] == os.devnull or inside(args[0])
    elif event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.kill"):
        ok = False
    if not ok:
        guarded = False
        raise mc.Violation(f"{event} {args[:2]!r}: reaches outside the directory it was asked to work in")


def setup():
    global ROOT
    ROOT = os.path.join(os.path.realpath(BASE), f"w{os.getpid()}")
    os.mkdir(ROOT, 0o700)
    if os.getuid() == 0:
        u = pwd.getpwnam("nobody")
        os.chown(ROOT, u.pw_uid, u.pw_gid)
        os.setgroups([])
        os.setresgid(u.pw_gid, u.pw_gid, u.pw_gid)
        os.setresuid(u.pw_uid, u.pw_uid, u.pw_uid)
    os.chdir(ROOT)
    os.umask(0o022)
    sys.addaudithook(hook)


@contextlib.contextmanager
def guard(answers=None, asked=None):
    """Runs the code under test; input() is answered from `answers`."""
    global guarded
    old = builtins.input
    out = io.StringIO()

    def ask(prompt=""):
        out.write(prompt)
        asked.append(out.getvalue())
        if not answers:
            raise mc.Violation("asks although nothing is to be asked")
        return answers.pop(0)
    builtins.input = ask if answers is not None else old
    try:
        guarded = True
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        guarded = False
        builtins.input = old


# ----- trees: name -> bytes (file) | dict (directory) | str (link target)
def make(path, tree):
    for name, v in tree.items():
        p = f"{path}/{name}"
        if isinstance(v, dict):
            os.mkdir(p)
            make(p, v)
        elif isinstance(v, bytes):
            with open(p, "wb") as f:
                f.write(v)
        else:
            os.symlink(v, p)


def snap(path):
    out = {}
    with os.scandir(path) as it:
        for e in it:
            if e.is_symlink():
                out[e.name] = os.readlink(e.path)
            elif e.is_dir():
                out[e.name] = snap(e.path)
            else:
                with open(e.path, "rb") as f:
                    out[e.name] = f.read()
    return out


OUTSIDE = {"keep": b"12345", "dir": {"deep": b"1", "sub": {"x": b"22"}}, ".hidden": b"h"}
NAMES = ["a", ".b.x", "c d"]


def fresh():
    for n in os.listdir(ROOT):
        p = f"{ROOT}/{n}"
        if os.path.islink(p) or not os.path.isdir(p):
            os.unlink(p)
        else:
            shutil.rmtree(p)


def gen(run, level, width, up):
    """A tree; `up` is the way from here to the directory that holds `outside`."""
    t = {}
    for i in range(run.choose(width[0] + 1, "entries")):
        k = run.choose(8 if len(width) > 1 else 7, "kind")
        t[NAMES[i]] = (b"" if k == 0 else b"xyz" if k == 1 else f"{up}outside" if k == 2 else f"{up}outside/keep"
                       if k == 3 else "nowhere" if k == 4 else "." if k == 5 else f"{up}outside/dir/sub" if k == 6
                       else gen(run, level + 1, width[1:], "../" + up))
    return t


def files(tree):
    return sum(files(v) if isinstance(v, dict) else 1 for v in tree.values())


def size(path, tree):
    s = 0
    for n, v in tree.items():
        p = f"{path}/{n}"
        if isinstance(v, dict):
            s += size(p, v)
        elif os.path.isfile(p):
            s += os.stat(p).st_size
    return s


def spelled(run, rel):
    k = run.choose(4, "path as string / Path, relative / absolute")
    p = rel if k % 2 == 0 else f"{ROOT}/{rel}"
    return pathlib.Path(p) if k >= 2 else p


@mc.scenario("remove_tree", "recursive removal of every small tree with files, directories and links", depth=3,
             setup=setup)
def remove_tree(run):
    fresh()
    tree = gen(run, 0, run.bound([2, 2], [2, 2, 1]), "../")
    make(ROOT, {"outside": OUTSIDE, "victim": tree, "victim2": {"z": b"z"}, "z": b""})
    target = "victim"
    p = spelled(run, target) if len(tree) < 2 else target
    run.note(f"  rm_tree({p!r}) on {tree}")
    run.step()
    with guard():
        fs.rm_tree(p)
    after = snap(ROOT)
    run.check("victim" not in after, lambda: f"left behind: {after.get('victim')}")
    run.check(after == {"outside": OUTSIDE, "victim2": {"z": b"z"}, "z": b""},
              lambda: f"removing 'victim' changed something else: {after}")
    run.state(tree)


@mc.scenario("remove_odd", "removing a link, a missing or an unremovable directory", setup=setup)
def remove_odd(run):
    fresh()
    k = run.choose(4, "link to a directory / dangling link / missing / not permitted")
    make(ROOT, {"outside": OUTSIDE})
    if k == 0:
        os.symlink("outside/dir" if run.flip("inner") else "outside", f"{ROOT}/victim")
    elif k == 1:
        os.symlink("nowhere", f"{ROOT}/victim")
    elif k == 3:
        make(ROOT, {"victim": {"locked": {"f": b"1"}, "z": b"2"}})
        os.chmod(f"{ROOT}/victim/locked", 0o555)
    p = spelled(run, "victim")
    err = None
    run.step()
    try:
        with guard():
            fs.rm_tree(p)
    except OSError as e:
        err = e
    if k == 3:
        os.chmod(f"{ROOT}/victim/locked", 0o755)
    after = snap(ROOT)
    run.check(after["outside"] == OUTSIDE, f"what a link names was changed: {after['outside']}")
    if k in (0, 1):
        run.check(err is None and "victim" not in after, f"the link is still there ({err})")
    elif k == 2:
        run.check(isinstance(err, FileNotFoundError), f"removing what does not exist: {err!r}")
    elif os.getuid() != 0:
        run.check(err is not None and "f" in after["victim"]["locked"], "a failure to remove is not reported")
    run.state(k, type(err).__name__)


@mc.scenario("measure", "size, number of files and direct subdirectories of every small tree", depth=3, setup=setup)
def measure(run):
    fresh()
    tree = gen(run, 0, run.bound([2, 1, 1], [2, 2, 1]), "../")
    make(ROOT, {"outside": OUTSIDE, "top": tree})
    p = spelled(run, "top") if len(tree) < 2 else "top"
    before = snap(ROOT)
    with guard():
        n = fs.count_files_recursive(p)
        b = fs.directory_size(pathlib.Path(p))
        dirs = fs.get_all_subdirs([pathlib.Path(p)])
        two = fs.get_all_subdirs(x for x in [pathlib.Path(p), pathlib.Path(ROOT) / "outside"])
    run.step(4)
    run.check(n == files(tree), f"{tree} holds {files(tree)} files and links, counted {n}")
    run.check(b == size(f"{ROOT}/top", tree), f"{tree} holds {size(ROOT + '/top', tree)} bytes, measured {b}")
    want = sorted(k for k in tree if os.path.isdir(f"{ROOT}/top/{k}"))
    run.check(sorted(d.name for d in dirs) == want and all(d.parent == pathlib.Path(p) for d in dirs),
              f"subdirectories of {tree} are {want}, listed {dirs}")
    run.check([d.name for d in two[:len(dirs)]] == [d.name for d in dirs] and [d.name for d in two[len(dirs):]] == ["dir"],
              f"subdirectories of two directories: {two}")
    run.check(snap(ROOT) == before, "measuring changed the tree")
    run.state(tree)


@mc.scenario("ask_remove", "removal after asking, for every answer and collection of directories", depth=2, setup=setup)
def ask_remove(run):
    fresh()
    layout = {"outside": OUTSIDE, "d1": {"x": b"1", "l": "../outside"}, "d2": {}, "d3": {"y": {"z": b""}}}
    make(ROOT, layout)
    chosen = [n for n in ["d1", "d2", "d3"] if run.flip(n)]
    more = run.choose(5, "nothing more / the first again / one inside before / after / both")
    listed = list(chosen)
    if more == 1:
        listed += chosen[:1]
    if more in (2, 4):
        listed.insert(0, "d3/y")
    if more in (3, 4):
        listed.append("d3/y")
    answer = run.pick(["", "y", "Y", "n", "N", "no", "yes", " ", "q"], "answer")
    kind = run.choose(4, "list / tuple / generator / iterator")
    paths = [pathlib.Path(ROOT) / n for n in listed]
    arg = [paths, tuple(paths), (x for x in paths), iter(paths)][kind]
    asked, answers = [], [answer]
    run.step()
    with guard(answers, asked):
        fs.ask_to_remove_directories(arg)
    run.check(len(asked) == 1, f"asked {len(asked)} times")
    for x in paths:
        run.check(x.as_posix() in asked[0], f"{x} is not shown before asking")
    yes = answer in ("", "y", "Y")
    want = {k: {} if yes and k == "d3" and more >= 2 else v for k, v in layout.items() if not (yes and k in chosen)}
    after = snap(ROOT)
    run.check(after == want, f"answer {answer!r}, directories {listed}: left {sorted(after)}, expected {sorted(want)}")
    run.state(listed, answer, kind)


@mc.scenario("make_dir", "creating or reusing a directory", setup=setup)
def make_dir(run):
    fresh()
    layout = {"have": {"f": b"1"}, "afile": b"2"}
    make(ROOT, layout)
    target = run.pick(["have", "new", "have/new", "deep/er/new", "afile", "have/f"], "path")
    parents = run.flip("create parents")
    yes = run.pick([False, True, None], "yes")
    answer = run.pick(["", "y", "Y", "n", "N", "yes"], "answer")
    asked, answers = [], [answer]
    p = pathlib.Path(ROOT) / target
    err = got = None
    run.step()
    try:
        with guard(answers, asked):
            got = fs.mkdir_and_ask(p, parents, yes) if run.flip("positional") else \
                fs.mkdir_and_ask(path=p, parents=parents, yes=yes)
    except OSError as e:
        err = e
    after = snap(ROOT)
    exists = target in ("have", "afile", "have/f")
    run.check(len(asked) == (1 if exists and not yes else 0), f"asked {len(asked)} times")
    run.check(not asked or str(p) in asked[0], "the question does not name the path")
    if exists:
        run.check(got is (True if yes else answer in ("", "y", "Y")) and err is None, f"answer {answer!r}: {got} {err!r}")
        run.check(after == layout, f"existing content changed: {after}")
    elif target.startswith("deep") and not parents:
        run.check(isinstance(err, FileNotFoundError) and after == layout, f"missing parents: {got}, {err!r}, {after}")
    else:
        want = {"have": {"f": b"1"}, "afile": b"2"}
        if target == "new":
            want["new"] = {}
        elif target == "have/new":
            want["have"]["new"] = {}
        else:
            want["deep"] = {"er": {"new": {}}}
        run.check(got is True and err is None and after == want, f"{got}, {err!r}, {after}")
    run.state(target, parents, yes, answer)


@mc.scenario("unique_name", "a path that does not exist yet, for every name and set of existing versions", depth=2,
             setup=setup)
def unique_name(run):
    fresh()
    stem, ext = run.pick([("f", ""), ("f", ".txt"), ("f", ".tar.gz"), (".h", ""), (".h", ".txt"), ("a b", ".c.d.e"),
                          ("f_v1", ""), ("f_v1", ".txt"), ("v2", ".0"), ("ä", ".x")], "name")
    names = [stem + ext] + [f"{stem}_v{i}{ext}" for i in (1, 2, 3)]
    have = [n for n in names if run.flip("exists")]
    kind = run.choose(4, "file / directory / link / dangling link")
    make(ROOT, {"d": {n: [b"", {}, "../other", "../gone"][kind] for n in have}, "other": b"",
                "f_v1.txt": b"", ".h_v1": b""})
    before = snap(ROOT)
    rel = run.choose(3, "absolute / relative / current directory")
    if rel == 2:
        os.chdir(f"{ROOT}/d")
        p = pathlib.Path(stem + ext)
    else:
        p = pathlib.Path(ROOT if rel == 0 else ".") / "d" / (stem + ext)
    run.step()
    try:
        with guard():
            got = fs.no_overwrite_path(p)
        run.check(not got.exists() and not got.is_symlink(), f"{got} exists already")
    finally:
        os.chdir(ROOT)
    want = next(n for n in names + [f"{stem}_v4{ext}"] if n not in have)
    run.check(got.parent == p.parent and got.name == want, f"{stem + ext} with {have} existing became {got.name}, "
              f"expected {want}")
    run.check(snap(ROOT) == before, "looking for a free name changed the directory")
    q = fs.append_str_to_path(p, "_tail.x")
    run.check(q == p.parent / (stem + ext + "_tail.x"), f"appending to {p} gave {q}")
    run.state(stem, ext, have, kind)


def run_script(name, argv, answers, asked):
    old = sys.argv
    sys.argv = [name + ".py"] + argv
    try:
        with guard(answers, asked):
            exec(SCRIPTS[name], {"__name__": "__main__"})
    finally:
        sys.argv = old


@mc.scenario("scripts", "the scripts that remove small directories and directories with few files", depth=3, setup=setup)
def scripts(run):
    fresh()
    by_size = run.flip("by size")
    kinds = [{}, {"f": b"x" * 10}, {"f": b"x" * 10, "g": {"h": b"y" * 990}}, {"l": "../../outside/keep"},
             {"a": b"", "b": b"", "c": {}}]
    r1 = {n: run.pick(kinds, n) for n in ["p", "q"][:run.choose(3, "directories in the first root")]}
    r1["file"] = b"1"
    r2 = {n: run.pick(kinds[1:4], n) for n in ["s"][:run.choose(2, "directories in the second root")]}
    make(ROOT, {"outside": OUTSIDE, "r1": r1, "r2": r2})
    answer = run.pick(["", "y", "n", "x"], "answer")
    if by_size:
        text, limit = run.pick([("0", 0), ("1", 1), ("10", 10), ("11B", 11), ("1k", 1000), ("1.001kb", 1001)], "limit")
    else:
        limit = run.choose(4, "limit")
        text = str(limit)
    asked = []
    roots = ["r1", f"{ROOT}/r2"][:1 + run.choose(2, "roots")]
    run.step()
    run_script("remove_small_directories" if by_size else "remove_directories_with_few_files", roots + [text],
               [answer], asked)
    want = {"outside": OUTSIDE, "r1": dict(r1), "r2": dict(r2)}
    gone = []
    for root in ["r1", "r2"][:len(roots)]:
        for n, v in list(want[root].items()):
            if isinstance(v, dict):
                # a link to a file counts as one entry, and as the file it names
                m = (sum_size(v) if by_size else files(v))
                if m < limit:
                    gone.append(f"{root}/{n}")
                    if answer in ("", "y"):
                        del want[root][n]
    after = snap(ROOT)
    run.check(after == want, f"limit {text}, answer {answer!r}: should remove {gone}, left {after}")
    run.check(len(asked) == 1 and all(g in asked[0] for g in gone), "not everything to be removed was shown")
    run.state(by_size, text, answer, sorted(gone), len(roots))


def sum_size(tree):
    return sum(sum_size(v) if isinstance(v, dict) else len(v) if isinstance(v, bytes) else 5 for v in tree.values())


@mc.scenario("size_text", "every short size text", depth=2, setup=setup)
def size_text(run):
    alphabet = "015.kMGbB x"
    n = run.choose(run.bound(6, 7), "length")
    s = "".join(run.pick(alphabet, "character") for _ in range(n))
    m = re.fullmatch(r"(\d+|\d+\.\d*|\.\d+)([kKmMgG]?)[bB]?", s)
    run.step()
    try:
        got = parse_file_size(s)
    except ValueError:
        got = None
    if m is None:
        run.check(got is None, f"size {s!r} was read as {got}")
    else:
        want = decimal.Decimal("0" + m.group(1) + "0" if "." in m.group(1) else m.group(1)) \
            * {"": 1, "k": 1000, "m": 10 ** 6, "g": 10 ** 9}[m.group(2).lower()]
        run.check(got is not None and type(got) is int and abs(got - want) <= decimal.Decimal("0.5"),
                  f"size {s!r} was read as {got}, expected {want}")
    if n < 5:
        run.state(s, got)


@mc.scenario("size_decimals", "every size with up to three decimals below twenty, in every unit", depth=2, setup=setup)
def size_decimals(run):
    """Decimals whose product with the unit is not exact in binary: 1.001k is 1001 bytes, not 1000."""
    unit, factor = run.pick((("", 1), ("b", 1), ("k", 1000), ("KB", 1000), ("M", 10 ** 6), ("mb", 10 ** 6),
                             ("G", 10 ** 9), ("gB", 10 ** 9)), "unit")
    whole = run.choose(20, "whole part")
    for i in range(1000):
        for text in (f"{whole}.{i:03d}", f"{whole}.{i:03d}".rstrip("0")):
            run.step()
            want = decimal.Decimal(text if text[-1] != "." else text[:-1]) * factor
            got = parse_file_size(text + unit)
            run.check(type(got) is int and abs(got - want) <= decimal.Decimal("0.5"),
                      f"size {text + unit!r} was read as {got}, expected {want}")
    run.state(unit, whole)


if __name__ == "__main__":
    BASE = tempfile.mkdtemp(prefix="verif-fs-", dir="/tmp")
    os.chmod(BASE, 0o755)
    me = os.getpid()
    try:
        rc = mc.main()
    finally:
        if os.getpid() == me:
            shutil.rmtree(BASE, ignore_errors=True)
    sys.exit(rc)
