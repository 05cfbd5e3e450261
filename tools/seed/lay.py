"""Lays out the part of ./ (the repository) that compiles, as a package in argv[1]: modules that need another
version of sqlparser, and their declarations, are left out."""
import os, re, shutil, sys
repo, out = os.getcwd(), sys.argv[1]
EXCLUDE = ["sql/execution/expression_parser.rs", "sql/planner/plan_builder.rs", "sql/planner/query_planner.rs",
           "sql/execution/execution_engine.rs", "common/db_instance.rs", "server/server_impl.rs",
           "server/connection.rs", "client", "cli.rs", "main.rs"]
MODS = {"lib.rs": ["cli", "client"], "common/mod.rs": ["db_instance"], "server/mod.rs": ["server_impl", "connection"],
        "sql/execution/mod.rs": ["expression_parser", "execution_engine"], "sql/planner/mod.rs": ["plan_builder", "query_planner"]}
shutil.copytree(repo + "/src", out + "/src")
for e in EXCLUDE:
    p = out + "/src/" + e
    if os.path.isdir(p):
        shutil.rmtree(p)
    elif os.path.exists(p):
        os.remove(p)
for f, ms in MODS.items():
    p = out + "/src/" + f
    t = open(p, encoding="utf-8").read()
    for m in ms:
        t = re.sub(rf"(?m)^(pub(\([a-z]+\))? )?(mod {m};|use {m}::.*;)$", "", t)
    open(p, "w", encoding="utf-8").write(t)
for f in ("Cargo.lock", "build.rs"):
    if os.path.exists(repo + "/" + f):
        shutil.copy(repo + "/" + f, out + "/" + f)
t = open(repo + "/Cargo.toml", encoding="utf-8").read()
t = re.sub(r"(?ms)^\[\[(bin|bench|test|example)\]\]\n.*?(?=^\[|\Z)", "", t)
t = re.sub(r"(?m)^default-run.*\n", "", t)
if "[workspace]" not in t:
    t += "\n[workspace]\n"
open(out + "/Cargo.toml", "w", encoding="utf-8").write(t)
