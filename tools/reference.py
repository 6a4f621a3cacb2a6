"""The confirmed reference: the fact base of the tree whose decision tables were confirmed (spec/reference/*.json.gz)."""
import gzip
import json
import os
import sys

import facts
import prog

DIR = os.path.join(facts.VERIF, "spec", "reference")


def load():
    crates = {}
    for u in facts.UNITS:
        with gzip.open(os.path.join(DIR, u + ".json.gz"), "rt") as f:
            crates[u] = json.load(f)
    return prog.Program(crates)


def save():
    os.makedirs(DIR, exist_ok=True)
    d = facts.ensure()
    for u in facts.UNITS:
        raw = open(os.path.join(d, u + ".json"), "rb").read()
        with open(os.path.join(DIR, u + ".json.gz"), "wb") as f:
            with gzip.GzipFile(filename="", mode="wb", fileobj=f, mtime=0, compresslevel=9) as g:
                g.write(raw)


if __name__ == "__main__" and sys.argv[1:] == ["save"]:
    save()
