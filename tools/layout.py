#!/usr/bin/env python3
"""Lays out, under /verif/work/ferrite, the part of /repo's working tree that compiles, as a package the
harness links against.

The whole crate does not build against the sqlparser in the offline registry, so (as the repository's own
baseline build does) the modules that need its older API are left out, and the `mod`/`use` lines naming
them are removed from their parents. Everything else is /repo's text, with two mechanical changes that put
the scheduler underneath it: `std::` paths go through `mcstd` and `parking_lot` is the instrumented build
of itself. Files under storage/disk keep the plain std and parking_lot: disk I/O is one atomic step.
A file is only rewritten when its content changed, so rebuilding is incremental."""
import os
import re
import sys
import tomllib

REPO = os.environ.get("REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1] if len(sys.argv) > 1 else VERIF + "/work/ferrite"
MC = VERIF + "/mc"
EXCLUDE = [
    "src/sql/execution/expression_parser.rs",
    "src/sql/planner/plan_builder.rs",
    "src/sql/planner/query_planner.rs",
    "src/sql/execution/execution_engine.rs",
    "src/common/db_instance.rs",
    "src/server/server_impl.rs",
    "src/server/connection.rs",
    "src/client",
    "src/cli.rs",
    "src/main.rs",
]
MODS = {
    "src/lib.rs": ["cli", "client"],
    "src/common/mod.rs": ["db_instance"],
    "src/server/mod.rs": ["server_impl", "connection"],
    "src/sql/execution/mod.rs": ["expression_parser", "execution_engine"],
    "src/sql/planner/mod.rs": ["plan_builder", "query_planner"],
}
PLAIN = ["src/storage/disk/"]


def rewrite(rel, text):
    for m in MODS.get(rel, []):
        text = re.sub(rf"(?m)^(pub(\([a-z]+\))? )?(mod {m};|use {m}::.*;)$", "", text)
    if rel.endswith("mod.rs"):
        # the harness calls some crate-internal parts directly
        text = re.sub(r"(?m)^(pub\([a-z]+\) )?mod (\w+);$", r"pub mod \2;", text)
    # progress messages would drown what the checks report
    text = re.sub(r"(?<![\w:!])println!\(", "::mcstd::unprinted!(", text)
    if any(rel.startswith(p) for p in PLAIN):
        text = re.sub(r"(?<![\w:])(::)?parking_lot::", "::parking_lot_plain::", text)
        text = re.sub(r"(?<![\w:])(::)?tokio::fs\b", "::mcstd::fs_now", text)
        if rel.startswith("src/storage/disk/async_disk/cache/"):
            # the caches' recency is decided by the virtual clock
            text = re.sub(r"(?<![\w:])(::)?(std::time::)?SystemTime::now\(\)", "::mcstd::system_now()", text)
        return text
    text = re.sub(r"(?<![\w:])(::)?(std::time::)?SystemTime::now\(\)", "::mcstd::system_now()", text)
    text = re.sub(r"(?<![\w:$])(::)?std::", "::mcstd::", text)
    text = re.sub(r"(?<![\w:])(::)?futures::executor::block_on\(", "::mcstd::block_on(", text)
    return text


def put(path, text):
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


want = set()
for d, dirs, files in os.walk(f"{REPO}/src"):
    for f in files:
        rel = os.path.relpath(f"{d}/{f}", REPO)
        if any(rel == e or rel.startswith(e + "/") for e in EXCLUDE):
            continue
        want.add(rel)
for d, dirs, files in os.walk(f"{OUT}/src", topdown=False):
    for f in files:
        if os.path.relpath(f"{d}/{f}", OUT) not in want:
            os.remove(f"{d}/{f}")
for rel in sorted(want):
    if not rel.endswith(".rs"):
        continue
    text = open(f"{REPO}/{rel}", encoding="utf-8").read()
    put(f"{OUT}/{rel}", rewrite(rel, text))

man = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))


def val(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, list):
        return "[" + ", ".join(val(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {val(x)}" for k, x in v.items()) + " }"
    return str(v)


deps = dict(man["dependencies"])
plain = deps.pop("parking_lot")
plain = plain if isinstance(plain, dict) else {"version": plain}
deps["parking_lot_plain"] = {**plain, "package": "parking_lot"}
deps["parking_lot"] = {"path": f"{MC}/mcpl", "package": "mcpl"}
deps["mcstd"] = {"path": f"{MC}/mcstd"}
out = ["[package]", 'name = "ferrite"', 'version = "0.1.0"', f'edition = "{man["package"]["edition"]}"']
out += ["", "[workspace]", "", "[dependencies]"]
out += [f"{k} = {val(v)}" for k, v in deps.items()]
out += ["", "[features]"]
out += [f"{k} = {val(v)}" for k, v in man.get("features", {}).items()]
put(f"{OUT}/Cargo.toml", "\n".join(out) + "\n")
