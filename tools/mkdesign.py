#!/usr/bin/env python3
"""Writes DESIGN.md from the prose in tools/, properties.jsonl, the harness
directives, known_findings.json, seeded/ and tools/catches.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
har = {}
for f in sorted(glob.glob(root + "/harness/h*/*.go")):
    d = {}
    for line in open(f):
        m = re.match(r"//gosym:([\w-]+)\s*(.*)", line)
        if m:
            d[m.group(1)] = m.group(2).strip()
            continue
        m = re.match(r"func (C\d\d)_(\w+)\(\)", line)
        if m:
            har.setdefault(m.group(1), []).append((m.group(2), os.path.relpath(f, root), d))
        if not line.startswith("//"):
            d = {}
fixed = {}
for e in json.load(open(root + "/known_findings.json"))["fixed"]:
    m = re.match(r"fixed: property=(C\d\d) (\w+) (.*)", e)
    fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
seeds = {}
for d in sorted(glob.glob(root + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    seeds.setdefault(m["property"], []).append((os.path.basename(d), m))
catch = {}
if os.path.exists(root + "/tools/catches.json"):
    catch = json.load(open(root + "/tools/catches.json"))
out = [open(root + "/tools/design_head.md").read()]
for p in props:
    i = p["id"]
    out.append("### %s %s\n\n%s\n\n" % (i, p["title"], p["statement"]))
    out.append("*Beyond tests:* %s\n\n" % p["why_tests_cant"])
    for name, f, d in har.get(i, []):
        out.append("- `%s_%s` (`%s`): %s" % (i, name, f, d.get("bounds", "")))
        if d.get("assume"):
            out.append(". Assumes: " + d["assume"])
        flags = [k for k in ("thorough", "loose", "race", "faketime", "sha1", "rand", "nonative") if k in d]
        if flags:
            out.append(" [" + ", ".join(flags) + "]")
        out.append("\n")
    if not har.get(i):
        out.append("- not applicable, see MANIFEST.json\n")
    out.append("\n")
out.append("Directives: *thorough* = only in the thorough tier; *race* = data races are violations; *faketime* = native runs\n"
           "use a fake clock; *sha1* = collision freedom of SHA-1; *rand* = arbitrary random numbers; *loose* = stops at a budget.\n\n")
out.append("## 5. Genuine defects found and repaired\n\nEach was shown by a check's counterexample replayed against the real code, and repaired in one `fix:` commit in /repo.\n"
           "None is left as a known finding (`known_findings.json`: `findings` is empty).\n\n| property | commit | what failed |\n|---|---|---|\n")
for p in props:
    for c, w in fixed.get(p["id"], []):
        out.append("| %s | %s | %s |\n" % (p["id"], c, w))
out.append("\n## 6. Planted bugs\n\nIn `seeded/`; each compiles, passes the repository's tests, and has a demonstration. \"caught\" = the property's\n"
           "quick check exits 1 with its VIOLATION line on a tree with the patch.\n\n| bug | property | what it breaks | needs | result |\n|---|---|---|---|---|\n")
for p in props:
    for n, m in seeds.get(p["id"], []):
        out.append("| %s | %s | %s | %s | %s |\n" % (n, p["id"], m["what_it_breaks"], m["needs"], catch.get(n, "")))
out.append(open(root + "/tools/design_tail.md").read())
open(root + "/DESIGN.md", "w").write("".join(out))
print(sum(len(v) for v in har.values()), "harnesses", sum(len(v) for v in seeds.values()), "bugs")
