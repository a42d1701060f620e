#!/usr/bin/env python3
"""Writes /verif/known_findings.json. The fixed entries come from the fix: commits in /repo and the table in fixed.txt."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
K1 = "operators in math functions are printed without the whitespace around them, e.g. calc(1px + 2px) as calc(1px+2px), which is invalid (enshrined in the repository's tests)"
K2 = "@custom-media definitions are removed although the custom media transform is off, which leaves the references undefined (enshrined in TestCustomMedia_Passthrough)"
find = [{"id": "K1", "property": p, "what": K1, "call_site": "internal/printer/printer.go: case *ast.MathExpression"} for p in ["C03", "C06", "C12", "C22"]]
find += [{"id": "K2", "property": p, "what": K2, "call_site": "internal/transformer/transformer.go: transformNodes, case custom-media"} for p in ["C04", "C07", "C13", "C22"]]
fixed = []
ft = os.path.join(here, "tools", "fixed.txt")
if os.path.exists(ft):
    fixed = [l.rstrip("\n") for l in open(ft) if l.strip()]
json.dump({"findings": find, "fixed": fixed}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
