"""Where the package's version comes from: git checkouts, archives, directory names, builds.

Everything happens in scratch trees holding a copy of the package's current sources; the real
repository is only read.
"""
import contextlib
import glob
import importlib
import itertools
import os
import re
import shutil
import subprocess
import sys
import tarfile
import tempfile
import zipfile

from hypothesis import strategies as st

from .core import REPO, Prop, Sub, Violation

PY = next((p for p in ("/opt/venv/bin/python", sys.executable) if os.path.exists(p)), sys.executable)
BASE_ENV = {
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "HOME": "/nonexistent",
    "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_NOSYSTEM": "1",
    "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@example.org",
    "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@example.org",
}
TAGS = ["v0.1.0", "v0.2", "v1.0.0", "v1.0.0rc1", "v1.10.2", "v2.0+local.1", "v3.0.0-beta-2",
        "v1.0-5-gabcdef0", "v2.1-dirty", "v6/lts", "v2022.11.1", "v4.0.post1", "v0.9.dev3", "v12"]
OTHER_TAGS = ["release-1", "1.0.0", "vnext", "V9.9", "version-2", "kalmankit-7.7", "x1.5", "v"]
BRANCHES = ["feature", "dev3", "release-2", "topic/deep", "master2"]
# names a checkout may have besides; those that are not UTF-8 cannot be put into an archived file
LOCAL_BRANCHES = BRANCHES + ["gr\u00fcn", "gr\udcfcn", "a(b", "v3.3-work"]
_n = itertools.count()


@contextlib.contextmanager
def scratch():
    base = os.environ.get("KV_SCRATCH") or tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix="ver.", dir=base)
    try:
        yield os.path.realpath(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sh(args, cwd, env=None, check=True, feed=""):
    e = dict(BASE_ENV)
    e.update(env or {})
    r = subprocess.run(args, cwd=cwd, env=e, input=feed.encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if check and r.returncode:
        raise RuntimeError(f"{args}: {r.stderr.decode()[-800:]}")
    return r.stdout.decode().strip()


def copy_package(root):
    """The package's own files, as in a source tree."""
    dst = os.path.join(root, "src", "kalmankit")
    shutil.copytree(os.path.join(REPO, "src", "kalmankit"), dst,
                    ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    for f in (".gitattributes", ".gitignore", "README.md"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), root)


def read_versions(src, env=None, cwd=None):
    """Import the package afresh from ``src`` and ask it for its version."""
    saved_env, saved_cwd, saved_path = dict(os.environ), os.getcwd(), list(sys.path)
    saved_mods = {k: v for k, v in sys.modules.items()
                  if k == "kalmankit" or k.startswith("kalmankit.")}
    for k in saved_mods:
        del sys.modules[k]
    # git's own complaints in trees without a usable repository are not ours
    err = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        for k in list(os.environ):
            if k.startswith("GIT_"):
                del os.environ[k]
        os.environ.update(BASE_ENV)
        os.environ.update(env or {})
        if cwd:
            os.chdir(cwd)
        sys.path.insert(0, src)
        importlib.invalidate_caches()
        try:
            import kalmankit

            got = kalmankit._version.get_versions()
            ver = kalmankit.__version__
            where = os.path.realpath(kalmankit.__file__)
        except Exception as e:
            raise Violation(f"importing the package or asking its version raised "
                            f"{type(e).__name__}: {e}")
        if not where.startswith(os.path.realpath(src)):
            raise RuntimeError("imported from " + where)
    finally:
        os.dup2(err, 2)
        os.close(err)
        os.close(null)
        for k in [k for k in sys.modules if k == "kalmankit" or k.startswith("kalmankit.")]:
            del sys.modules[k]
        sys.modules.update(saved_mods)
        sys.path[:] = saved_path
        os.environ.clear()
        os.environ.update(saved_env)
        os.chdir(saved_cwd)
    if not isinstance(got, dict) or not isinstance(got.get("version"), str):
        raise Violation(f"get_versions() returned {got!r}")
    if ver != got["version"]:
        raise Violation(f"__version__ is {ver!r} but get_versions() says {got['version']!r}")
    return got


def git_date(ts, tz):
    """What %ci prints, in strict ISO form."""
    import datetime

    z = datetime.timezone(datetime.timedelta(minutes=tz))
    return datetime.datetime.fromtimestamp(ts, z).strftime("%Y-%m-%dT%H:%M:%S%z")


class Repo:
    """A scratch repository and a model of its history."""

    def __init__(self, root, make=copy_package, hash="sha1"):
        self.root = root
        os.makedirs(root)
        make(root)
        self.parents, self.date, self.order, self.tags = {}, {}, [], {}
        self.when = {}
        self.heads, self.head, self.branch = {}, None, "main"
        self.dirty = self.stuck = False
        self.junk = 0
        self.names = BRANCHES
        for f in ("data.txt", "gone.txt"):
            with open(os.path.join(root, f), "w") as fh:
                fh.write("x\n")
        self.git("init", "-q", "-b", "main", "--object-format=" + hash)
        self.git("add", "-A")
        self.commit(1_000_000_000, 0, first=True)

    def git(self, *a, **k):
        return sh(["git", *a], self.root, **k)

    def commit(self, ts, tz, first=False, empty=False):
        if not first and not empty:
            f = f"f{len(self.order)}.txt"
            with open(os.path.join(self.root, f), "w") as fh:
                fh.write("x")
            self.git("add", "--", f)
        ts = self._forward(ts, [self.head] if self.head else [])
        sign = "-" if tz < 0 else "+"
        d = f"{ts} {sign}{abs(tz) // 60:02d}{abs(tz) % 60:02d}"
        msg = f"c{len(self.order)}"
        self.git("commit", "-q", "--allow-empty", "-m", msg,
                 env={"GIT_COMMITTER_DATE": d, "GIT_AUTHOR_DATE": "1500000000 +0000"})
        self._record([self.head] if self.head else [], git_date(ts, tz), ts)

    def many(self, ts, n):
        """n empty commits at once."""
        ts = self._forward(ts, [self.head])
        feed = "".join(f"commit refs/kv/many\nmark :{i + 1}\n"
                       f"committer a <a@example.org> {ts + i} +0000\ndata 1\nm\n"
                       + ("" if i else f"from {self.head}\n") for i in range(n))
        marks = os.path.join(self.root, ".git", "kv-marks")
        subprocess.run(["git", "fast-import", "--quiet", "--export-marks=" + marks], check=True,
                       cwd=self.root, env=BASE_ENV, input=feed.encode(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        with open(marks) as fh:
            new = dict(line.split() for line in fh)
        for i in range(n):
            sha = new[f":{i + 1}"]
            self.parents[sha], self.when[sha] = [self.head], ts + i
            self.date[sha] = git_date(ts + i, 0)
            self.order.append(sha)
            self.head = sha
        self.git("update-ref", "HEAD", self.head)
        self.git("update-ref", "-d", "refs/kv/many")
        if self.branch:
            self.heads[self.branch] = self.head

    def _forward(self, ts, parents):
        """Clocks never run backwards along a line of history (git's own distance count is
        only exact then)."""
        return max([ts] + [self.when[p] + 1 for p in parents])

    def _record(self, parents, date, ts):
        sha = self.git("rev-parse", "HEAD")
        self.parents[sha], self.date[sha], self.when[sha] = parents, date, ts
        self.order.append(sha)
        self.head = sha
        if self.branch:
            self.heads[self.branch] = sha

    def tag(self, name, sha, annotated):
        if name in self.tags:
            return
        if annotated:
            self.git("tag", "-a", "-m", "t", name, sha)
        else:
            self.git("tag", name, sha)
        self.tags[name] = sha

    def up(self, sha):
        seen, todo = set(), [sha]
        while todo:
            s = todo.pop()
            if s not in seen:
                seen.add(s)
                todo += self.parents[s]
        return seen

    def clean(self):
        self.git("reset", "-q", "--hard")
        self.dirty = self.stuck = False

    def switch(self, branch=None, sha=None):
        self.clean()
        if branch:
            self.git("checkout", "-q", branch)
            self.branch, self.head = branch, self.heads[branch]
        else:
            self.git("checkout", "-q", "--detach", sha)
            self.branch, self.head = None, sha

    def merge(self, sha, ts):
        self.clean()
        if sha in self.up(self.head) or self.head in self.up(sha):
            return
        old = self.head
        ts = self._forward(ts, [old, sha])
        self.git("merge", "-q", "--no-ff", "--allow-unrelated-histories", "-m", "m", sha,
                 env={"GIT_COMMITTER_DATE": f"{ts} +0000"})
        self._record([old, sha], git_date(ts, 0), ts)

    def dirt(self, kind):
        p = os.path.join(self.root, "data.txt")
        self.junk += 1
        if kind in ("modify", "stage"):
            with open(p, "a") as fh:
                fh.write(f"\n# {self.junk}\n")
            if kind == "stage":
                self.git("add", "--", p)
            self.dirty = True
        elif kind == "delete":
            if os.path.exists(os.path.join(self.root, "gone.txt")):
                os.unlink(os.path.join(self.root, "gone.txt"))
            self.dirty = True
        elif kind == "new-staged":
            f = f"new{self.junk}.txt"
            open(os.path.join(self.root, f), "w").close()
            self.git("add", "--", f)
            self.dirty = True
        elif kind == "link":
            # a link in the place of a file
            os.path.lexists(p) and os.unlink(p)
            os.symlink("README.md", p)
            self.dirty = True
        elif kind == "rename":
            if os.path.exists(os.path.join(self.root, "gone.txt")):
                self.git("mv", "gone.txt", f"moved{self.junk}.txt")
            self.dirty = True
        elif kind == "conflict":
            # as in a merge that waits to be resolved
            blob = self.git("rev-parse", "HEAD:data.txt")
            self.git("rm", "-q", "-f", "--cached", "--", "data.txt")
            for stage in "123":
                self.git("update-index", "--index-info",
                         feed=f"100644 {blob} {stage}\tdata.txt\n")
            self.dirty = self.stuck = True
        elif kind == "exec-bit":
            mode = os.stat(p).st_mode
            if not mode & 0o100:
                os.chmod(p, mode | 0o111)
                self.dirty = True
        elif kind == "untracked":
            open(os.path.join(self.root, "src", "kalmankit", f"zz{self.junk}.txt"), "w").close()
        elif kind == "ignored":
            open(os.path.join(self.root, f"x{self.junk}.pyc"), "w").close()
        elif kind == "touch":
            os.utime(os.path.join(self.root, "src", "kalmankit", "__init__.py"),
                     (1e9 + self.junk, 1e9 + self.junk))

    def expected(self):
        """(set of acceptable (tag, distance) pairs or None, total commits)."""
        mine = self.up(self.head)
        cand = {}
        for name, sha in self.tags.items():
            if re.match(r"v\d", name) and sha in mine:
                cand.setdefault(sha, []).append(name)
        if not cand:
            return None, len(mine)
        dist = {s: len(mine - self.up(s)) for s in cand}
        near = min(dist.values())
        return {(n[1:], d) for s, d in dist.items() if d == near for n in cand[s]}, len(mine)

    def check(self, got, what="git checkout"):
        pairs, total = self.expected()
        v = got["version"]
        short = None
        ok = False
        if pairs is None:
            m = re.fullmatch(r"0\+untagged\.(\d+)\.g([0-9a-f]{7,40})(\.dirty)?", v)
            if m:
                ok = int(m[1]) == total and bool(m[3]) == self.dirty
                short = m[2]
        else:
            for tag, dist in pairs:
                if not dist and not self.dirty:
                    ok = ok or v == tag
                    continue
                sep = "." if "+" in tag else "+"
                m = re.fullmatch(re.escape(tag + sep) + rf"{dist}\.g([0-9a-f]{{7,40}})(\.dirty)?", v)
                if m and bool(m[2]) == self.dirty:
                    ok, short = True, m[1]
        if not ok or (short and not self.head.startswith(short)):
            want = (f"0+untagged.{total}.g{self.head[:7]}" if pairs is None
                    else " or ".join(sorted(f"{t} at distance {d}" for t, d in pairs)))
            raise Violation(f"{what}: version is {v!r}, expected {want}, "
                            f"commit {self.head[:7]}, dirty={self.dirty}")
        want = {"full-revisionid": self.head, "dirty": self.dirty, "error": None,
                "date": self.date[self.head]}
        for k, w in want.items():
            if got.get(k) != w:
                raise Violation(f"{what}: {k} is {got.get(k)!r}, expected {w!r}")


# ------------------------------------------------------------------ C17 git checkouts
ts_st = st.one_of(st.integers(1_000_000_000, 1_700_000_000), st.integers(1_000_000_000, 4_000_000_000))
tz_st = st.sampled_from([0, 60, -300, 330, 765, -570])
tag_st = st.one_of(st.sampled_from(TAGS), st.sampled_from(TAGS), st.sampled_from(OTHER_TAGS))
op_st = st.one_of(
    st.fixed_dictionaries({"op": st.just("commit"), "ts": ts_st, "tz": tz_st,
                           "empty": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("tag"), "name": tag_st, "at": st.integers(0, 9),
                           "annotated": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("tag"), "name": st.sampled_from(TAGS),
                           "at": st.integers(0, 3), "annotated": st.booleans()}),
    st.fixed_dictionaries({"op": st.sampled_from(["branch", "switch", "detach", "untag", "orphan"]),
                           "i": st.integers(0, 9), "ts": ts_st}),
    st.fixed_dictionaries({"op": st.just("fork"), "ts": ts_st, "side": st.integers(1, 2),
                           "main": st.integers(0, 2), "tag": st.one_of(st.none(), tag_st),
                           "other": st.one_of(st.none(), tag_st)}),
    st.fixed_dictionaries({"op": st.just("merge"), "i": st.integers(0, 9), "ts": ts_st}),
    st.fixed_dictionaries({"op": st.just("dirt"), "kind": st.sampled_from(
        ["modify", "stage", "delete", "new-staged", "exec-bit", "untracked", "ignored", "touch",
         "link", "rename", "conflict"])}),
    st.fixed_dictionaries({"op": st.sampled_from(["clean", "look"])}),
    st.fixed_dictionaries({"op": st.just("many"), "ts": ts_st, "n": st.one_of(
        st.integers(8, 25), st.integers(8, 25), st.integers(90, 130))}),
)
checkout_case = st.fixed_dictionaries({
    "ops": st.lists(op_st, min_size=3, max_size=12),
    "name": st.sampled_from(["kalmankit", "kalmankit-9.9.9", "work tree", "repo", "k\u00e4lm\u00e4n",
                             "-q", "a'b\"c", "%h [x]*", "kalmankit-1\n2"]),
    "place": st.sampled_from(["plain", "plain", "symlink", "worktree", "inside-other", "clone",
                              "shallow", "packed", "submodule", "locked"]),
    "env": st.sampled_from(["plain", "cwd-other", "git-dir", "work-tree", "index", "objects",
                            "common-dir", "hook", "config", "noise"]),
    "hash": st.sampled_from(["sha1", "sha1", "sha256"]),
})


def apply(r, op):
    k = op["op"]
    if k == "commit":
        if r.dirty:
            r.clean()
        r.commit(op["ts"], op["tz"], empty=op["empty"])
    elif k == "many":
        if r.dirty:
            r.clean()
        r.many(op["ts"], op["n"])
    elif k == "tag":
        r.tag(op["name"], r.order[-1 - min(op["at"], len(r.order) - 1)], op["annotated"])
    elif k == "untag" and r.tags:
        name = sorted(r.tags)[op["i"] % len(r.tags)]
        r.git("tag", "-d", name)
        del r.tags[name]
    elif k == "branch":
        free = [b for b in r.names if b not in r.heads]
        if free:
            if r.stuck:
                r.clean()
            b = free[op["i"] % len(free)]
            r.git("checkout", "-q", "-b", b)
            r.heads[b], r.branch = r.head, b
    elif k == "orphan":
        # a second root, with the same files
        b = f"root{len(r.order)}"
        if b not in r.heads:
            r.clean()
            r.git("checkout", "-q", "--orphan", b)
            r.head, r.branch = None, b
            r.commit(op["ts"], 0)
    elif k == "switch":
        r.switch(branch=sorted(r.heads)[op["i"] % len(r.heads)])
    elif k == "detach":
        r.switch(sha=r.order[op["i"] % len(r.order)])
    elif k == "fork":
        # a side line of history, perhaps tagged, merged back
        here, base = r.branch, r.head
        r.switch(sha=base)
        for _ in range(op["side"]):
            r.commit(op["ts"], 0)
        side = r.head
        if op["tag"]:
            r.tag(op["tag"], side, True)
        r.switch(branch=here, sha=base)
        for _ in range(op["main"]):
            r.commit(op["ts"] + 5, 0)
        if op["other"]:
            r.tag(op["other"], r.head, False)
        if op["main"]:
            r.merge(side, op["ts"] + 10)
    elif k == "merge":
        r.merge(r.order[op["i"] % len(r.order)], op["ts"])
    elif k == "dirt":
        r.dirt(op["kind"])
    elif k == "clean":
        r.clean()


def decoy(root):
    """Another repository with its own tag, which must never be consulted."""
    os.makedirs(root)
    for a in (["init", "-q", "-b", "main"], ["commit", "-q", "--allow-empty", "-m", "x"],
              ["tag", "v77.7"]):
        sh(["git", *a], root, env={"GIT_COMMITTER_DATE": "1400000000 +0000"})
    return root


def foreign(kind, d):
    """Variables that name (parts of) the other repository ``d``, as in one of its hooks."""
    g = os.path.join(d, ".git")
    one = {"git-dir": {"GIT_DIR": g}, "work-tree": {"GIT_WORK_TREE": d},
           "index": {"GIT_INDEX_FILE": os.path.join(g, "index")},
           "objects": {"GIT_OBJECT_DIRECTORY": os.path.join(g, "objects")},
           "common-dir": {"GIT_COMMON_DIR": g}}
    if kind == "hook":
        return {"GIT_PREFIX": "src/", **one["git-dir"], **one["work-tree"], **one["index"]}
    if kind == "noise":
        # what has nothing to do with any repository
        return {"TZ": "Asia/Tokyo", "LC_ALL": "C.UTF-8", "LANG": "de_DE.UTF-8", "LANGUAGE": "de",
                "PAGER": "false", "GIT_PAGER": "false", "GIT_TRACE": "1", "EDITOR": "false",
                "GIT_CEILING_DIRECTORIES": d, "GIT_AUTHOR_DATE": "1", "COLUMNS": "20",
                "GIT_COMMITTER_DATE": "1", "GIT_ADVICE": "1", "VERSION": "5.5", "PREFIX": "v5"}
    if kind == "config":
        # a user's taste, not a repository
        kv = {"color.ui": "always", "core.abbrev": "12", "log.showSignature": "true",
              "log.date": "relative"}
        env = {"GIT_CONFIG_COUNT": str(len(kv))}
        for i, (k, v) in enumerate(kv.items()):
            env[f"GIT_CONFIG_KEY_{i}"], env[f"GIT_CONFIG_VALUE_{i}"] = k, v
        return env
    return one[kind]


def judge_checkout(case, obs):
    with scratch() as top:
        base = top
        if case["place"] == "inside-other":
            base = decoy(os.path.join(top, "outer"))
        root = os.path.join(base, case["name"])
        r = Repo(root, hash=case.get("hash", "sha1"))
        r.names = LOCAL_BRANCHES
        env, cwd = {}, None
        if case["env"] != "plain":
            d = decoy(os.path.join(top, "kalmankit-5.5"))
            if case["env"] == "cwd-other":
                cwd = d
            else:
                env = foreign(case["env"], d)

        def look():
            src = os.path.join(root, "src")
            if case["place"] == "symlink":
                link = os.path.join(top, "kalmankit-8.8")
                if not os.path.isdir(link):
                    os.mkdir(link)
                    os.symlink(os.path.join(src, "kalmankit"), os.path.join(link, "kalmankit"))
                src = link
                if env or cwd:
                    obs.label("symlink+env")
            r.check(read_any(src, env, cwd))
            pairs, _ = r.expected()
            obs.label("untagged" if pairs is None else
                      "on-tag" if any(d == 0 for _, d in pairs) else "after-tag",
                      "dirty" if r.dirty else "clean",
                      "merged" if any(len(r.parents[s]) > 1 for s in r.up(r.head)) else "linear")
            obs.mark(pairs is not None)

        for op in case["ops"]:
            if op["op"] == "look":
                look()
            else:
                apply(r, op)
        look()
        if case["place"] == "worktree":
            wt = os.path.join(top, "wt")
            r.git("worktree", "add", "-q", "--detach", wt, r.head)
            w = object.__new__(Repo)
            w.__dict__.update(r.__dict__, root=wt, dirty=False)
            w.check(read_any(os.path.join(wt, "src"), env, cwd), "git worktree")
        if case["place"] == "clone":
            # somebody else's copy of the repository
            to = os.path.join(top, "kalmankit-4.4.4")
            sh(["git", "clone", "-q", root, to], top)
            w = object.__new__(Repo)
            w.__dict__.update(r.__dict__, root=to, dirty=False)
            w.check(read_any(os.path.join(to, "src"), env, cwd), "git clone")
        if case["place"] == "shallow":
            # only the last commit is known there
            to = os.path.join(top, "shallow")
            sh(["git", "clone", "-q", "--depth", "1", "file://" + root, to], top)
            w = object.__new__(Repo)
            w.__dict__.update(r.__dict__, root=to, dirty=False,
                              parents={r.head: []})
            w.check(read_any(os.path.join(to, "src"), env, cwd), "shallow clone")
        if case["place"] == "submodule":
            to = os.path.join(decoy(os.path.join(top, "kalmankit-3.3")), "vendor")
            sh(["git", "init", "-q", "--object-format=" + case.get("hash", "sha1"), to], top)
            sh(["git", "-c", "protocol.file.allow=always", "submodule", "--quiet", "add", root,
                "sub"], to)
            to = os.path.join(to, "sub")
            w = object.__new__(Repo)
            w.__dict__.update(r.__dict__, root=to, dirty=False)
            w.check(read_any(os.path.join(to, "src"), env, cwd), "git submodule")
        if case["place"] == "locked":
            # another git is at work
            lock = os.path.join(root, ".git", "index.lock")
            open(lock, "w").close()
            look()
            os.unlink(lock)
        if case["place"] == "packed":
            r.git("pack-refs", "--all")
            r.git("gc", "-q", "--prune=now")
            look()
        obs.label("place:" + case["place"], "env:" + case["env"])


def read_any(src, env, cwd):
    """A symlinked package resolves to its real tree, so only its origin is checked there."""
    if os.path.islink(os.path.join(src, "kalmankit")):
        return _read_link(src, env, cwd)
    return read_versions(src, env, cwd)


def _read_link(src, env, cwd):
    code = ("import sys, json; sys.path.insert(0, sys.argv[1]); import kalmankit; "
            "v = kalmankit._version.get_versions(); v['__version__'] = kalmankit.__version__; "
            "print(json.dumps(v))")
    import json

    try:
        got = json.loads(sh([sys.executable, "-c", code, src], cwd or src,
                            env=dict(env, PYTHONDONTWRITEBYTECODE="1",
                                     OPENBLAS_NUM_THREADS="1")).splitlines()[-1])
    except Exception as e:
        raise Violation(f"importing the package through a symbolic link failed: {e}")
    if got.pop("__version__") != got.get("version"):
        raise Violation("__version__ differs from get_versions()")
    return got


C17 = Prop(
    "C17",
    "random git histories (commits with random dates and zones, annotated and lightweight tags of "
    "version and other names, branches, detached heads, merges, worktrees, dirty and clean trees) "
    "in scratch repositories holding the package; the reported version is compared with a model "
    "of the history after random steps; non-trivial = a version tag is reachable",
    [Sub("checkout", checkout_case, judge_checkout, 400, shards=8)])


# ------------------------------------------------------------------ C18 no git metadata
archive_case = st.fixed_dictionaries({
    "kind": st.just("archive"),
    "ops": st.lists(op_st, max_size=5),
    "tags": st.lists(st.tuples(tag_st, st.booleans()), max_size=4),
    "branches": st.lists(st.sampled_from(BRANCHES), max_size=2, unique=True),
    "detached": st.booleans(), "hash": st.sampled_from(["sha1", "sha1", "sha256"]),
    "dir": st.sampled_from(["kalmankit-9.9.9", "kalmankit", "x", "kalmankit-v1"]),
    "where": st.sampled_from(["plain", "inside-other", "git-dir"]),
    "crlf": st.sampled_from([False, False, True]), "zip": st.booleans(),
})
name_st = st.one_of(
    st.sampled_from(["kalmankit", "Kalmankit-1.0", "kalmankit_1.0", "x-kalmankit-1.0", "work",
                     "src2"]),
    st.builds(lambda v: "kalmankit-" + v,
              st.sampled_from(["1.2.3", "0.4.0rc1", "2.0+g1234", "3.1-kalmankit-4", "2024.1.1",
                               "1.2.3.dev4+5.gabc", "v1.0", "main"])))
bare_case = st.fixed_dictionaries({
    "kind": st.just("bare"),
    "dirs": st.lists(name_st, min_size=4, max_size=5),
    "git": st.sampled_from(["none", "none", "no-binary", "no-commit", "broken-head",
                            "lost-history", "refuses", "not-executable"]),
    "git-dir": st.booleans(),
})
# what git is asked for, one or several of which may fail
ASKED = ["rev-parse --git-dir", "describe *", "rev-parse HEAD", "rev-parse --abbrev-ref *",
         "branch *", "rev-list *", "show *", "log *"]
fault_case = st.fixed_dictionaries({
    "ops": st.lists(op_st, max_size=4), "detached": st.booleans(),
    "name": st.sampled_from(["kalmankit-9.9.9", "work"]),
    "fail": st.lists(st.sampled_from(ASKED), min_size=1, max_size=3, unique=True),
    "how": st.sampled_from(["quiet", "noisy", "killed"]),
})


def fake_git(where, fail, how):
    """A git that fails at some of its commands."""
    os.mkdir(where)
    p = os.path.join(where, "git")
    act = {"quiet": "exit 128", "noisy": "echo 'v1.2.3-0-g1234567'; exit 1", "killed": "kill -9 $$"}
    with open(p, "w") as fh:
        fh.write("#!/bin/sh\ncase \"$*\" in\n"
                 + "".join(f"{f.replace(' ', chr(92) + ' ')}) {act[how]} ;;\n" for f in fail)
                 + f"esac\nexec {shutil.which('git')} \"$@\"\n")
    os.chmod(p, 0o755)
    return where + os.pathsep + BASE_ENV["PATH"]


def judge_fault(case, obs):
    """Wherever git fails the version is the right one or the one without git, never an error."""
    with scratch() as top:
        root = os.path.join(top, case["name"])
        r = Repo(root)
        for op in case["ops"]:
            if op["op"] != "look":
                apply(r, op)
        if case["detached"] and r.branch and not r.dirty:
            r.switch(sha=r.head)
        got = read_versions(os.path.join(root, "src"),
                            {"PATH": fake_git(os.path.join(top, "bin"), case["fail"], case["how"])})
        want = parent_version([case["name"]]) or "0+unknown"
        if got["version"] == want:
            if got.get("full-revisionid") is not None or got.get("dirty"):
                raise Violation(f"version from the directory name came with {got!r}")
            obs.label("fell back")
        else:
            r.check(got, f"checkout with git failing at {case['fail']}")
            obs.label("right all the same")
        for f in case["fail"]:
            obs.label("fail:" + f)
        obs.label("how:" + case["how"])
        obs.mark(got["version"] == want)


def judge_archive(case, obs):
    with scratch() as top:
        r = Repo(os.path.join(top, "origin"), hash=case.get("hash", "sha1"))
        for op in case["ops"]:
            if op["op"] not in ("look", "dirt"):
                apply(r, op)
        for name, ann in case["tags"]:
            r.tag(name, r.head, ann)
        for b in case["branches"]:
            if b not in r.heads:
                r.git("branch", b)
        if case["detached"] and r.branch:
            r.switch(sha=r.head)
        out = os.path.join(top, "a.tar")
        base, env = top, {}
        if case["where"] == "inside-other":
            base = decoy(os.path.join(top, "outer"))
        elif case["where"] == "git-dir":
            env = {"GIT_DIR": os.path.join(decoy(os.path.join(top, "other")), ".git")}
        dst = os.path.join(base, case["dir"])
        eol = ["-c", "core.autocrlf=true"] if case.get("crlf") else []
        os.makedirs(dst)
        if case.get("zip"):
            r.git(*eol, "archive", "--format=zip", "-o", out, "HEAD")
            with zipfile.ZipFile(out) as z:
                z.extractall(dst)
        else:
            r.git(*eol, "archive", "-o", out, "HEAD")
            with tarfile.open(out) as t:
                t.extractall(dst, filter="data")
        got = read_versions(os.path.join(dst, "src"), env)
        check_archive(r, got, "git archive")
        obs.label("archive", "tagged" if [t for t in r.tags if r.tags[t] == r.head
                                          and re.match(r"v\d", t)] else "untagged",
                  "where:" + case["where"], "crlf" if case.get("crlf") else "lf")
        obs.mark(True)


def check_archive(r, got, what):
    here = sorted(t[1:] for t, s in r.tags.items() if s == r.head and re.match(r"v\d", t))
    v = got["version"]
    if here:
        if v not in here:
            raise Violation(f"{what}: version is {v!r}, the commit is tagged {here}")
        if any(v != t and v.startswith(t) for t in here):
            raise Violation(f"{what}: version is {v!r} although the commit is also tagged "
                            f"{[t for t in here if v.startswith(t)][0]!r}")
        want = {"full-revisionid": r.head, "dirty": False, "error": None, "date": r.date[r.head]}
    else:
        if v != "0+unknown":
            raise Violation(f"{what}: version is {v!r}, but the commit has no version tag")
        want = {"full-revisionid": r.head}
    for k, w in want.items():
        if got.get(k) != w:
            raise Violation(f"{what}: {k} is {got.get(k)!r}, expected {w!r}")
    if not here and not got.get("error"):
        raise Violation(f"{what}: unknown version without an error note")


def parent_version(dirs):
    for d in reversed(dirs[-3:]):
        if d.startswith("kalmankit-"):
            return d[len("kalmankit-"):]
    return None


def judge_bare(case, obs):
    dirs = case["dirs"]
    with scratch() as top:
        root = os.path.join(top, *dirs)
        os.makedirs(root)
        copy_package(root)
        env = {"GIT_CEILING_DIRECTORIES": top}
        if case["git-dir"]:
            env.update(foreign("hook", decoy(os.path.join(top, "other"))))
        if case["git"] in ("refuses", "not-executable"):
            # as in a tree that belongs to somebody else
            sh(["git", "init", "-q"], root)
            sh(["git", "add", "-A"], root)
            sh(["git", "commit", "-q", "-m", "x"], root)
            sh(["git", "tag", "v6.6"], root)
            env["PATH"] = fake_git(os.path.join(top, "bin"), ["*"], "quiet")
            if case["git"] == "not-executable":
                env["PATH"] = os.path.join(top, "bin")
                os.chmod(os.path.join(top, "bin", "git"), 0o644)
        elif case["git"] == "lost-history":
            sh(["git", "init", "-q"], root)
            sh(["git", "add", "-A"], root)
            for _ in range(2):
                sh(["git", "commit", "-q", "--allow-empty", "-m", "x"], root)
            old = sh(["git", "rev-parse", "HEAD^"], root)
            os.unlink(os.path.join(root, ".git", "objects", old[:2], old[2:]))
        elif case["git"] == "no-binary":
            empty = os.path.join(top, "empty")
            os.mkdir(empty)
            sh(["git", "init", "-q"], root)
            sh(["git", "add", "-A"], root)
            sh(["git", "commit", "-q", "-m", "x"], root)
            sh(["git", "tag", "v6.6"], root)
            env["PATH"] = empty
        elif case["git"] == "no-commit":
            sh(["git", "init", "-q"], root)
        elif case["git"] == "broken-head":
            sh(["git", "init", "-q"], root)
            sh(["git", "add", "-A"], root)
            sh(["git", "commit", "-q", "-m", "x"], root)
            with open(os.path.join(root, ".git", "HEAD"), "w") as fh:
                fh.write("1" * 40 + "\n")
        got = read_versions(os.path.join(root, "src"), env)
        want = parent_version(dirs)
        v = got["version"]
        if v != (want if want is not None else "0+unknown"):
            raise Violation(f"tree at {'/'.join(dirs)} with git={case['git']}: version is {v!r}, "
                            f"expected {want or '0+unknown'!r}")
        if got.get("full-revisionid") is not None:
            raise Violation("a revision id was reported without any repository")
        if want is None and not got.get("error"):
            raise Violation("unknown version without an error note")
        if want is not None and (got.get("error") is not None or got.get("dirty")):
            raise Violation(f"version from the directory name came with {got!r}")
        obs.label("bare", "named" if want is not None else "unknown", "git:" + case["git"])
        obs.mark(want is not None)


C18 = Prop(
    "C18",
    "scratch trees without usable git metadata: git archives of random histories unpacked under "
    "random names (also inside other repositories), and plain trees under random directory names "
    "with no git, no git binary, no commit or a broken HEAD; non-trivial = an archive, or a "
    "directory name that gives the version",
    [Sub("archive", archive_case, judge_archive, 250, shards=8),
     Sub("bare", bare_case, judge_bare, 250, shards=8),
     Sub("faults", fault_case, judge_fault, 160, shards=8)])


# ------------------------------------------------------------------ C19 builds
def copy_tree(root):
    copy_package(root)
    for f in ("setup.py", "setup.cfg", "pyproject.toml", "versioneer.py", "LICENSE",
              "MANIFEST.in", "CHANGELOG.md"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), root)


def moved(r, place, top, hash):
    """The same history seen from another kind of checkout."""
    if place == "plain":
        return r
    r.clean()
    to = os.path.join(top, "elsewhere")
    if place == "worktree":
        r.git("worktree", "add", "-q", "--detach", to, r.head)
    elif place == "clone":
        sh(["git", "clone", "-q", r.root, to], top)
    elif place == "shallow":
        sh(["git", "clone", "-q", "--depth", "1", "file://" + r.root, to], top)
    elif place == "submodule":
        outer = os.path.join(decoy(os.path.join(top, "kalmankit-3.3")), "vendor")
        sh(["git", "init", "-q", "--object-format=" + hash, outer], top)
        sh(["git", "-c", "protocol.file.allow=always", "submodule", "--quiet", "add", r.root,
            "sub"], outer)
        to = os.path.join(outer, "sub")
    w = object.__new__(Repo)
    w.__dict__.update(r.__dict__, root=to, dirty=False, stuck=False, branch=None)
    w.parents = {r.head: []} if place == "shallow" else dict(r.parents)
    w.heads = {}
    return w


build_case = st.fixed_dictionaries({
    "source": st.sampled_from(["git", "git", "git", "archive", "named", "bare"]),
    "ops": st.lists(op_st, max_size=6),
    "tag": st.one_of(st.none(), st.sampled_from(
        ["v0.1.0", "v1.0.0", "v1.0.0rc1", "v1.10.2", "v2.0+local.1", "v4.0.post1", "v12",
         "v1.0-rc1", "v01.2.0", "v1.0.0.rc2", "v1.2.0-post3"])),
    "place": st.sampled_from(["plain", "plain", "worktree", "clone", "shallow", "submodule"]),
    "hash": st.sampled_from(["sha1", "sha1", "sha256"]),
    "name": st.sampled_from(["tree", "tree", "kalmankit-8.8", "work tree", "a'b[x]"]),
    "back": st.integers(0, 3),
    "dirt": st.sampled_from(["", "", "", "modify", "stage", "untracked", "delete", "new-staged",
                             "exec-bit", "ignored", "touch", "link", "rename"]),
    "unpack": st.sampled_from(["kalmankit-99.9", "x"]), "again": st.booleans(),
    "direct": st.booleans(), "later": st.booleans(), "editable": st.booleans(),
    "front": st.sampled_from(["setup.py", "pep517"]),
    "env": st.sampled_from(["plain", "git-dir", "hook"]),
})
BUILD_ENV = {}
PEP_TAGS = {"v1.0-rc1", "v01.2.0", "v1.0.0.rc2", "v1.2.0-post3", "v3.0.0-beta-2", "v0.1.0", "v0.2", "v1.0.0", "v1.0.0rc1", "v1.10.2", "v2.0+local.1", "v2022.11.1",
            "v4.0.post1", "v0.9.dev3", "v12"}


def build(root, *cmd):
    r = subprocess.run([PY, "setup.py", "-q", *cmd], cwd=root, stdin=subprocess.DEVNULL,
                       env=dict(BASE_ENV, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                                **BUILD_ENV),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Violation(f"setup.py {' '.join(cmd)} failed: {r.stdout.decode()[-500:]}")
    return r.stdout.decode()


HOOK = ("import sys, setuptools.build_meta as b; "
        "print(getattr(b, 'build_' + sys.argv[1])(sys.argv[2]))")


def make(front, root, kind, dist):
    """Build an sdist, wheel or editable wheel with setup.py or as pip and build do (PEP 517)."""
    if front == "setup.py":
        build(root, {"sdist": "sdist", "wheel": "bdist_wheel"}[kind], "--dist-dir", dist)
        return
    os.makedirs(dist, exist_ok=True)
    # pip would install versioneer as a build requirement; here the tree's own copy is used
    r = subprocess.run([PY, "-c", HOOK, kind, dist], cwd=root, stdin=subprocess.DEVNULL,
                       env=dict(BASE_ENV, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=root,
                                **BUILD_ENV),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Violation(f"building {kind} failed: {r.stdout.decode()[-500:]}")


def wheel(front, root, dist, inst, kind="wheel"):
    """Build a wheel of the tree and unpack it; returns the wheel's path."""
    make(front, root, kind, dist)
    wheels = glob.glob(os.path.join(dist, "*.whl"))
    if len(wheels) != 1:
        raise Violation(f"bdist_wheel made {wheels}")
    with zipfile.ZipFile(wheels[0]) as z:
        z.extractall(inst)
    return wheels[0]


def check_wheel(path, inst, root, modules, version):
    """The wheel holds the tree's modules, and its name and metadata state the version."""
    have = sorted(f for f in os.listdir(os.path.join(inst, "kalmankit")) if f.endswith(".py"))
    if have != modules:
        raise Violation(f"the wheel holds {have}, the tree {modules}")
    for f in modules:
        if f == "_version.py":
            continue        # rewritten on purpose
        with open(os.path.join(root, "src", "kalmankit", f), "rb") as f1, \
                open(os.path.join(inst, "kalmankit", f), "rb") as f2:
            if f1.read() != f2.read():
                raise Violation(f"{f} in the wheel differs from the tree's")
    metas = glob.glob(os.path.join(inst, "*.dist-info", "METADATA"))
    mv = re.search(r"^Version: (.*)$", open(metas[0]).read(), re.M) if metas else None
    if not mv or canonical(mv[1]) != canonical(version):
        raise Violation(f"wheel metadata says {mv and mv[1]!r}, package {version!r}")
    wname = os.path.basename(path).split("-")[1]
    if canonical(wname.replace("_", "+")) != canonical(version):
        raise Violation(f"wheel is named {os.path.basename(path)}, but holds version {version}")


def snapshot(root):
    """The tree's own source files (not what builds add) and their content."""
    out = {}
    for d in (root, os.path.join(root, "src", "kalmankit")):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p) and not f.startswith("zz"):
                with open(p, "rb") as fh:
                    out[p] = fh.read()
    return out


def canonical(v):
    try:
        from packaging.version import Version
    except ImportError:
        return v
    return str(Version(v))


def judge_build(case, obs):
    with scratch() as top:
        r = None
        root = os.path.join(top, case["name"])
        if case["source"] in ("git", "archive"):
            r = Repo(root, copy_tree, hash=case["hash"])
            for op in case["ops"]:
                # setuptools builds no version that PEP 440 does not allow
                op = {k: None if k in ("tag", "other", "name") and
                      v not in PEP_TAGS | set(OTHER_TAGS) else v for k, v in op.items()}
                if op["op"] == "tag" and op["name"] is None:
                    continue
                if op["op"] not in ("look", "dirt"):
                    apply(r, op)
            if case["tag"]:
                r.tag(case["tag"], r.order[-1 - min(case["back"], len(r.order) - 1)], True)
        if case["source"] == "git":
            r = moved(r, case["place"], top, case["hash"])
            root = r.root
            if case["dirt"]:
                r.dirt(case["dirt"])
            obs.label("place:" + case["place"])
        elif case["source"] == "archive":
            a = os.path.join(top, "a.tar")
            r.git("archive", "-o", a, "HEAD")
            root = os.path.join(top, "unpacked")
            os.makedirs(root)
            with tarfile.open(a) as t:
                t.extractall(root, filter="data")
        else:
            root = os.path.join(top, "kalmankit-3.2.1" if case["source"] == "named" else "plain")
            os.makedirs(root)
            copy_tree(root)
        modules = sorted(f for f in os.listdir(os.path.join(root, "src", "kalmankit"))
                         if f.endswith(".py"))
        front = case["front"]
        BUILD_ENV.clear()
        if case["env"] != "plain":
            # as in a git hook of some other repository
            BUILD_ENV.update(foreign(case["env"], decoy(os.path.join(top, "hook"))))
        before = snapshot(root)
        make(front, root, "sdist", os.path.join(top, "d1"))
        files = glob.glob(os.path.join(top, "d1", "*.tar.gz"))
        if len(files) != 1:
            raise Violation(f"sdist made {files}")
        # unpack under another name, inside another repository: only what was recorded may count
        outer = decoy(os.path.join(top, "outer"))
        with tarfile.open(files[0]) as t:
            t.extractall(outer, filter="data")
        inner = [d for d in os.listdir(outer) if d != ".git"]
        if len(inner) != 1:
            raise Violation(f"sdist contains {inner}")
        sroot = os.path.join(outer, case["unpack"])
        os.rename(os.path.join(outer, inner[0]), sroot)

        def same(got, what):
            if case["source"] == "git":
                r.check(got, what)
            elif case["source"] == "archive":
                check_archive(r, got, what)
            else:
                want = "3.2.1" if case["source"] == "named" else "0+unknown"
                if got["version"] != want:
                    raise Violation(f"{what}: version is {got['version']!r}, expected {want!r}")

        got = read_versions(os.path.join(sroot, "src"))
        same(got, "unpacked sdist")
        fname = os.path.basename(files[0])[:-len(".tar.gz")]
        if fname != "kalmankit-" + canonical(got["version"]):
            raise Violation(f"sdist is named {fname}, but holds version {got['version']}")
        meta = open(os.path.join(sroot, "PKG-INFO")).read()
        mv = re.search(r"^Version: (.*)$", meta, re.M)
        if not mv or canonical(mv[1]) != canonical(got["version"]):
            raise Violation(f"sdist metadata says {mv and mv[1]!r}, package {got['version']!r}")
        inst = os.path.join(outer, "site-packages")
        path = wheel(front, sroot, os.path.join(top, "d2"), inst)
        same(read_versions(inst), "installed wheel")
        check_wheel(path, inst, root, modules, got["version"])
        if case["again"]:
            # a source distribution of the unpacked source distribution
            make(front, sroot, "sdist", os.path.join(top, "d3"))
            again = glob.glob(os.path.join(top, "d3", "*.tar.gz"))
            if [os.path.basename(f) for f in again] != [os.path.basename(files[0])]:
                raise Violation(f"an sdist of the sdist {os.path.basename(files[0])} is {again}")
            last = os.path.join(top, "last")
            with tarfile.open(again[0]) as t:
                t.extractall(last, filter="data")
            same(read_versions(os.path.join(last, os.listdir(last)[0], "src")), "sdist of the sdist")
            obs.label("sdist of sdist")
        # building leaves the tree as it was
        if snapshot(root) != before:
            raise Violation("building changed the source tree's own files")
        same(read_versions(os.path.join(root, "src")), "source tree after a build")
        if case["direct"]:
            # straight from the tree, without a source distribution in between
            inst = os.path.join(outer, "direct")
            path = wheel(front, root, os.path.join(top, "d4"), inst)
            here = read_versions(inst)
            same(here, "wheel built straight from the tree")
            check_wheel(path, inst, root, modules, here["version"])
            said = build(root, "--version").strip().splitlines()
            if not said or canonical(said[-1].strip()) != canonical(here["version"]):
                raise Violation(f"setup.py --version says {said!r}, the tree is {here['version']}")
            obs.label("direct wheel")
            if case["editable"]:
                # a development install points at the tree and leaves it alone
                inst = os.path.join(outer, "editable")
                path = wheel("pep517", root, os.path.join(top, "d6"), inst, "editable")
                if canonical(os.path.basename(path).split("-")[1].replace("_", "+")) != \
                        canonical(here["version"]):
                    raise Violation(f"editable wheel {os.path.basename(path)} of {here['version']}")
                pth = [open(f).read().strip() for f in glob.glob(os.path.join(inst, "*.pth"))]
                if [os.path.realpath(p) for p in pth] != [os.path.join(root, "src")]:
                    raise Violation(f"the editable wheel points at {pth}")
                same(read_versions(os.path.join(root, "src")), "editable install")
                if snapshot(root) != before:
                    raise Violation("an editable install changed the source tree's own files")
                obs.label("editable")
            if case["source"] == "git" and case["later"]:
                # the tree moves on and is built again, over the remains of the first build
                r.clean()
                r.commit(1_700_000_000, 60)
                r.tag("v33.1", r.head, True)
                inst = os.path.join(outer, "later")
                path = wheel(front, root, os.path.join(top, "d5"), inst)
                here = read_versions(inst)
                same(here, "wheel built after a further commit and tag")
                check_wheel(path, inst, root, modules, here["version"])
                obs.label("built again later")
        obs.label("source:" + case["source"], "front:" + front, "env:" + case["env"])
        obs.mark(True)


light_case = st.fixed_dictionaries({
    "source": st.sampled_from(["git", "git", "git", "git", "archive", "named"]),
    "ops": st.lists(op_st, max_size=8),
    "tag": st.one_of(st.none(), st.sampled_from(sorted(PEP_TAGS))), "back": st.integers(0, 3),
    "dirs": st.lists(name_st, min_size=4, max_size=4),
    "place": st.sampled_from(["plain", "worktree", "clone", "shallow", "submodule"]),
    "hash": st.sampled_from(["sha1", "sha1", "sha256"]),
    "name": st.sampled_from(["tree", "kalmankit-8.8", "work tree", "k\u00e4lm\u00e4n", "a'b\"c"]),
    "dirt": st.sampled_from(["", "modify", "stage", "untracked", "delete", "new-staged",
                             "exec-bit", "ignored", "touch", "link", "rename", "conflict"]),
    "env": st.sampled_from(["plain", "git-dir", "hook", "work-tree", "index", "objects",
                            "config", "noise"]),
    # what happens to the tree before it is built again over the remains of the build before
    "then": st.one_of(st.just([]), st.lists(st.sampled_from(
        ["clean", "clean", "modify", "commit", "v1.0", "v1", "v33.1", "nothing"]), max_size=2)),
})


def judge_light(case, obs):
    """Only the steps of a build that deal with the version: the metadata and the package."""
    with scratch() as top:
        r, want = None, None
        if case["source"] == "named":
            dirs = [d for d in case["dirs"]]
            want = parent_version(dirs)
            if want is not None:
                try:
                    canonical(want)
                except ValueError:
                    return
            want = want or "0+unknown"
            root = os.path.join(top, *dirs)
            os.makedirs(root)
            copy_tree(root)
        else:
            root = os.path.join(top, case["name"])
            r = Repo(root, copy_tree, hash=case["hash"])
            for op in case["ops"]:
                op = {k: None if k in ("tag", "other", "name") and
                      v not in PEP_TAGS | set(OTHER_TAGS) else v for k, v in op.items()}
                if (op["op"] != "tag" or op["name"] is not None) and op["op"] != "look":
                    apply(r, op)
            if case["tag"]:
                r.tag(case["tag"], r.order[-1 - min(case["back"], len(r.order) - 1)], True)
            if case["source"] == "archive":
                r.git("archive", "-o", os.path.join(top, "a.tar"), "HEAD")
                root = os.path.join(top, "unpacked")
                os.makedirs(root)
                with tarfile.open(os.path.join(top, "a.tar")) as t:
                    t.extractall(root, filter="data")
            else:
                r = moved(r, case["place"], top, case["hash"])
                root = r.root
                if case["dirt"]:
                    r.dirt(case["dirt"])
        BUILD_ENV.clear()
        BUILD_ENV["GIT_CEILING_DIRECTORIES"] = top
        if case["env"] != "plain":
            BUILD_ENV.update(foreign(case["env"], decoy(os.path.join(top, "hook"))))
            BUILD_ENV.pop("LC_ALL", None)
        lib, egg = os.path.join(top, "lib"), os.path.join(top, "egg")
        os.mkdir(egg)
        before = snapshot(root)
        for step in [None] + case.get("then", []):
            what = "built package" + (f" after {step} and a build before" if step else "")
            if step and case["source"] == "git" and not (
                    step == "modify" and r.stuck):
                if step == "modify":
                    r.dirt("modify")
                elif step != "nothing":
                    r.clean()
                if step == "commit":
                    r.commit(1_700_000_000, 60)
                elif step[0] == "v" and step not in r.tags:
                    r.tag(step, r.head, True)
                before = snapshot(root)
            build(root, "egg_info", "--egg-base", egg, "build_py", "--build-lib", lib)
            got = read_versions(lib)
            if r is None:
                if got["version"] != want:
                    raise Violation(f"{what}: version is {got['version']!r}, expected {want!r}")
            elif case["source"] == "archive":
                check_archive(r, got, what)
            else:
                r.check(got, what)
            meta = open(os.path.join(egg, "kalmankit.egg-info", "PKG-INFO")).read()
            mv = re.search(r"^Version: (.*)$", meta, re.M)
            if not mv or canonical(mv[1]) != canonical(got["version"]):
                raise Violation(f"{what}: metadata says {mv and mv[1]!r}, "
                                f"package {got['version']!r}")
            if snapshot(root) != before:
                raise Violation("building changed the source tree's own files")
            if step:
                obs.label("then:" + step)
        obs.label("light", "source:" + case["source"], "env:" + case["env"])
        if case["source"] == "git":
            obs.label("place:" + case["place"], "dirt:" + (case["dirt"] or "none"))
        obs.mark(True)


C19 = Prop(
    "C19",
    "random scratch source trees (git checkout, git archive, named directory, none) are built to "
    "an sdist, the sdist is unpacked elsewhere inside another repository and built to a wheel; "
    "the version each carries is compared with the model of the source tree; every case is "
    "non-trivial",
    [Sub("build", build_case, judge_build, 80, thorough=1200, shards=8),
     Sub("light", light_case, judge_light, 240, thorough=3600, shards=8)],
    assumptions=["builds run offline with the installed setuptools"])
