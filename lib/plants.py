#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} |")
p = V + "/DESIGN.md"
s = open(p).read()
head = "## 4. Planted bugs (`seeded/`)\n"
s = s[: s.index(head)] + head + """
Each was confirmed with `git apply`, its demo and the test suite, and is reported by the quick tier of the check of its property. The
mutation runs described below found what the checks had missed.

| plant | caught by | needs |
|---|---|---|
""" + "\n".join(rows) + """

Besides, some 1,500 mutants of the sources (operators, constants, statements dropped or exchanged; and some 45 by hand) were run
against the checks of their package. Those that survived and changed behaviour led to: traces' text and details (C15), loading in
advance (C14), logging (C12), files that are not open and loads that overtake events (C17), mixed messages (C04), the effort of
incremental parsing and the notation of grammars (C19). What still survives is equivalent, dead code, or only visible in log texts.
"""
open(p, "w").write(s)
