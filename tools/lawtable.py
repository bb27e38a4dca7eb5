#!/usr/bin/env python3
"""LAWS.md: every contract, its property, what it calls, and whether it is proved on the reference tree"""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open(V + "/contracts/baseline.json"))
out = ["# Contracts", "", "`proved`: every obligation discharged from /repo's source on each run, for all inputs. `executed`: bounded, never counted as proved.", ""]
tot = [0, 0]
rows = {}
for f in sorted(glob.glob(V + "/contracts/c[0-9]*.py")):
    t = ast.parse(open(f).read())
    imported = {a.asname or a.name: n.module for n in ast.walk(t) if isinstance(n, ast.ImportFrom) and n.module and n.module.startswith("brel") for a in n.names}
    helpers = {n.name: n for n in t.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
    for n in t.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "law":
                p = d.args[0].value
                names, seen, todo = set(), set(), [n]
                while todo:
                    for x in ast.walk(todo.pop()):
                        if isinstance(x, ast.Name):
                            if x.id in imported:
                                names.add(x.id)
                            elif x.id in helpers and x.id not in seen and isinstance(helpers[x.id], ast.FunctionDef):
                                seen.add(x.id); todo.append(helpers[x.id])
                meths = sorted({x.func.attr for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)} - {"get", "append", "items", "find", "keys", "values", "strip", "split", "lower", "upper", "isoformat"})
                ok = n.name in base.get(p, [])
                tot[ok] += 1
                rows.setdefault(p, []).append("| %s | %s | %s |" % (n.name, "**proved**" if ok else "executed", ", ".join(sorted(names) + ["." + m for m in meths])[:260]))
for p in sorted(rows):
    out += ["## " + p, "", "| law | state | functions and classes of /repo it calls directly |", "|---|---|---|"] + rows[p] + [""]
out.insert(4, "%d proved, %d executed only." % (tot[1], tot[0]) + chr(10))
open(V + "/LAWS.md", "w").write("\n".join(out))
print(out[4])
