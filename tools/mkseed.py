#!/usr/bin/env python3
"""Maintenance only: mkseed(id, property, file, old, new, needs, breaks, demo) writes seeded/<id>/ from a text replacement."""
import subprocess, os, json
V = "/verif"
PRE = '''#!/bin/bash
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; B="$R/_build/lttoolbox"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH="$B"; cd "$T" || exit 0
'''
def mkseed(id, prop, edits, needs, breaks, demo, files=None):
    d = "%s/seeded/%s" % (V, id); os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = "/repo/lttoolbox/" + f; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/repo", "diff"], text=True))
    finally: subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/demo.sh", "w").write(PRE + demo.strip() + "\n"); os.chmod(d + "/demo.sh", 0o755)
    for n, t in (files or {}).items(): open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
