VER, UT = "src/kalmankit/_version.py", "src/kalmankit/utils.py"


def rows(P):
    return [
        P("C17", "In a git checkout the version states nearest tag, distance, commit, dirt",
          "Imported from a git checkout, the package reports as its version the nearest version "
          "tag (v followed by a digit, fewest commits back) in the history of the checked-out commit, plus, unless the "
          "tree is exactly at the tag and clean, the number of commits since it, the abbreviated "
          "commit and whether tracked files differ; without such a tag it says so, with the "
          "commit count. The full commit id, its date and the dirty flag are reported with it. "
          "Other tags, untracked files, the surrounding directory and repositories named by the "
          "environment or the working directory play no part.",
          ["histories", "configurations"],
          "all histories of commits, tags, branches, merges and checkouts; all states of the "
          "working tree; all environments",
          "No test touches the version; it depends on the repository's history, which a test "
          "running in one checkout sees one instance of.",
          [VER, "src/kalmankit/__init__.py"],
          [("git describe and its parsing", VER), ("pep440 rendering", VER),
           ("git variables removed from the environment", VER)],
          "Exploration of random histories in scratch repositories against a model of the "
          "history that never runs git describe. With several equally near tags any is accepted.",
          "stateful model-based testing of random git histories",
          observe=["kalmankit.__version__", "kalmankit._version.get_versions()"]),
        P("C18", "Without git metadata the version comes from archive or directory name",
          "Imported from an unpacked git archive, the package reports the version tag of the "
          "archived commit (a release before its pre-releases) and its commit id, or an unknown "
          "version with that commit id when the commit carries no version tag, wherever it was "
          "unpacked. In any other tree without a usable repository it reports what follows the "
          "project's prefix in the nearest of the source root's own and two parent directory "
          "names, and an explicitly unknown version otherwise; it never fails to import.",
          ["configurations", "fault_sequences"],
          "all archives of histories whose branches are not named like version tags, all "
          "directory names, with git absent, failing at any of its commands, without a commit or "
          "with a broken HEAD",
          "No test touches the version; the fallbacks only run outside a development checkout.",
          [VER, ".gitattributes"],
          [("expanded keywords", VER), ("parent directory", VER), ("fallback order", VER)],
          "Exploration with real git archive output and real directory trees, including a missing "
          "git binary and broken repositories.",
          "property-based testing with environment fault injection",
          observe=["kalmankit.__version__", "kalmankit._version.get_versions()"]),
        P("C19", "Every built distribution carries its source tree's version",
          "A source distribution or wheel built from any source tree (git checkout, git archive, "
          "named directory) carries, in its file name, metadata and the installed package, the "
          "version that tree has, and keeps reporting it wherever it is unpacked, rebuilt or "
          "installed, including inside another repository. A wheel holds every module of the "
          "package, building changes none of the tree's own files, and other repositories named "
          "by the environment play no part.",
          ["histories", "configurations"],
          "all source trees as in the two properties before, the chain tree -> source "
          "distribution -> wheel -> installed package",
          "No test builds the package; a mistake shows only in what users install.",
          ["versioneer.py", "setup.py", "pyproject.toml", "MANIFEST.in", VER],
          [("versioneer commands", "versioneer.py"), ("version file path", "pyproject.toml")],
          "Exploration with tens of real builds per run, offline with the installed setuptools.",
          "property-based testing of the build pipeline against a model of the tree",
          observe=["file names, PKG-INFO, kalmankit.__version__ of the installed package"]),
        P("C20", "The absent-array marker is all-NaN for any dtype; only all-NaN is absent",
          "Standing in for an absent array, the library's utility returns a floating array of "
          "NaN in the shape of the reference array, whatever that array's dtype and layout, and "
          "returns a given array as it is. An array counts as absent exactly when every one of "
          "its elements is NaN, and neither utility modifies or aliases the reference array.",
          ["inputs"], "all shapes, dtypes and memory layouts, NaN and other special values in "
          "every combination of places",
          "Two tests call the utilities on five small arrays.",
          [UT], [("check_none_and_broadcast", UT), ("is_nan_all", UT)],
          "Exploration of thousands of arrays against element-wise definitions.",
          "property-based testing against an element-wise definition"),
        P("C21", "The examples are consistent: right Jacobians, times and estimates",
          "For every random seed and record size each example script runs to the end and shows "
          "exactly the filter's and smoother's estimates for its model and data, one per "
          "observation; the code of the documentation's quick start runs and yields them as well. An example's analytic Jacobians are the derivatives of its functions everywhere, "
          "and its data generators return one state and one time stamp per observation.",
          ["inputs"], "all seeds, record sizes, noise levels and states",
          "No test runs the examples, which are the documented way to learn the API.",
          ["examples/constant_velocity_smoothing.py", "examples/market_beta.py",
           "examples/moving_average.py", "examples/pendulum.py",
           "examples/pendulum_smoothing.py", "docs/source/quickstart.rst"],
          [("jacobian_A, jacobian_H", "examples/pendulum.py"),
           ("generate_observations", "examples/pendulum_smoothing.py")],
          "Exploration under a stand-in for matplotlib, with an independent recursion and "
          "numerical derivatives. One known finding: time stamps of the pendulum example.",
          "property-based testing against an independent recursion and numerical derivatives"),
    ]
