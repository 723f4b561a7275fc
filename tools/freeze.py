"""freeze.py: writes tools/frozen.json, the written forms demanded of each type, from the current tree.

Run by hand only, on a tree whose forms were compared with the IFC schema; no check runs it."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import verus_gen  # noqa: E402
from verus_gen import Index, SH, JOIN, build, emit, load_ast, tidy_join  # noqa: E402


def main():
    verus_gen.frozen = lambda: {}
    us = emit(build(Index(load_ast())))
    out = {}
    for u in us:
        for t in u.spec:
            m = SH.match(t)
            if not m or m.group(1) == "Dummy" or (m.group(1) != "Header" and re.search(r"\b(f_\w+|seq_\w+|str_replace|b64_enc|dt_ts)\(", m.group(4))):
                continue
            joins = {}
            for h in u.helpers:
                j = JOIN.match(h)
                if j:
                    joins[j.group(1)] = [j.group(2) or "", j.group(3), tidy_join(j.group(4))]
            out[m.group(1)] = [m.group(2) or "", m.group(3), m.group(4), joins]
    json.dump(out, open(os.path.join(HERE, "frozen.json"), "w"), indent=0, sort_keys=True)
    print(len(out))


if __name__ == "__main__":
    main()
