"""Compiling generated programs against /repo, with rustc directly."""
import json
import os
import re

import base


class Kit:
    """The crates of the harness as cargo built them from /repo's current tree."""

    def __init__(self, profile="dev", packages=()):
        args = ["build", "--offline", "--locked", "--message-format=json"]
        args += [x for p in packages for x in ("-p", p)] or ["--lib"]
        if profile != "dev":
            args += ["--profile", profile]
        base.cargo(args)   # sorts out compiler errors and retries
        rc, out, err = base.sh(["cargo"] + args, cwd=base.HARNESS, timeout=800)
        if rc != 0:
            raise base.Broken("build failed: " + err[-2000:])
        self.lib, self.dirs = {}, set()
        for line in out.splitlines():
            if not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("reason") == "build-script-executed":
                continue
            if d.get("reason") != "compiler-artifact":
                continue
            name = d["target"]["name"].replace("-", "_")
            for f in d["filenames"]:
                if f.endswith(".rlib") or f.endswith(".so"):
                    if name in ("serde", "serde_json", "typetag", "tt_harness", "bincode", "erased_serde"):
                        self.lib[name] = f
                    self.dirs.add(os.path.dirname(f))
        for n in packages or ("serde", "serde_json", "typetag", "tt_harness"):
            if n not in self.lib:
                raise base.Broken("cargo named no library for " + n)

    def externs(self, names=("typetag", "serde", "serde_json", "tt_harness"), rename=()):
        out = []
        for d in sorted(self.dirs) + [os.path.join(os.path.dirname(next(iter(sorted(self.dirs)))), "deps")]:
            out += ["-L", "dependency=" + d]
        for n in names:
            out += ["--extern", "%s=%s" % (dict(rename).get(n, n), self.lib[n])]
        return out

    def compile(self, src, out, edition="2021", kind="bin", flags=(), names=("typetag", "serde", "serde_json", "tt_harness"),
                rename=(), emit=None, crate=None, timeout=300):
        cmd = ["rustc", "--edition", edition, "--crate-type", kind, "-C", "debuginfo=0", "-A", "warnings" if "-Dwarnings" not in flags else "unused",
               "--cap-lints", "forbid", "-o", out]
        if emit:
            cmd += ["--emit", emit]
        if crate:
            cmd += ["--crate-name", crate]
        cmd += list(flags) + self.externs(names, rename) + [src]
        return base.sh(cmd, timeout=timeout)


INTERNAL = re.compile(r"internal compiler error|thread 'rustc' panicked|No space left|Cannot allocate memory|out of memory|linking with")


def verdict(rc, err):
    """'ok', 'rejected', or None when the compiler gave no answer."""
    if rc == 0:
        return "ok"
    if rc is None or INTERNAL.search(err) or not re.search(r"^error", err, re.M):
        return None
    return "rejected"
