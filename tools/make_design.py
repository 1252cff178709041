#!/usr/bin/env python3
"""Writes DESIGN.md from design.md, the checks and the results of the planted changes."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    tree = ast.parse(open(path, encoding="utf8").read())
    out = {"doc": ast.get_docstring(tree)}
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("ORACLE", "BOUNDS", "ASSUMPTIONS"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def main():
    text = open(os.path.join(ROOT, "tools", "design.md"), encoding="utf8").read()
    props = []
    for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf8"):
        p = json.loads(line)
        c = constants(os.path.join(ROOT, "checks", p["id"] + ".py"))
        lines = [f"### {p['id']} {p['title']}", "", f"* Explored (quick): {c['BOUNDS']['quick']}.",
                 f"* Explored (thorough), in addition or instead: {c['BOUNDS']['thorough']}.", f"* Oracle: {c['ORACLE']}."]
        for a in c.get("ASSUMPTIONS", []):
            lines.append(f"* Assumed: {a}.")
        props.append("\n".join(lines))
    fixed = ["* " + line[7:].strip() for line in open(os.path.join(ROOT, "known_findings.txt"), encoding="utf8") if line.startswith("fixed:")]
    planted = []
    results = {}
    path = os.path.join(ROOT, "tools", "planted.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            parts = [x.strip() for x in line.split("|")]
            if len(parts) > 2:
                results[parts[0]] = parts[-1].split()[0]
    for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        meta = json.load(open(os.path.join(ROOT, "seeded", name, "meta.json"), encoding="utf8"))
        planted.append(f"| {name} | {meta['what_it_breaks']} | {meta['needs']} | {results.get(name, 'not run').lower()} |")
    head = "| change | breaks | needs | check of its property |\n|---|---|---|---|\n"
    text = text.replace("<!-- properties -->", "\n\n".join(props)).replace("<!-- fixed -->", "\n".join(fixed))
    text = text.replace("<!-- planted -->", head + "\n".join(planted))
    open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf8").write(text)


main()
