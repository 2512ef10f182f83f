"""Refreshes section 2 of DESIGN.md from properties.jsonl and the check modules (the hand-written lines
starting "* *Why beyond tests*" are kept)."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from tools.notes import TECH, E_
path = os.path.join(V, "DESIGN.md")
text = open(path).read()
head, rest = text.split("## 2. The properties\n", 1)
body, tail = rest.split("## 3. ", 1)
intro = body.split("### C", 1)[0]
why = dict(re.findall(r"### (C\d\d) .*?\n(\* \*Why beyond tests\*.*?)(?=\n\n)", body, re.S))
why = {}
for sec in body.split("### ")[1:]:
    m = re.search(r"^\* \*Why beyond tests\*.*?(?=\n\n|\n*\Z)", sec, re.S | re.M)
    why[sec[:3]] = m.group(0).strip()
out = intro
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    m = importlib.import_module("mc.checks." + i.lower())
    t = (TECH.get(i) or m.TECHNIQUE).replace(E_, "")
    out += "### %s  %s\n\n* *Method*: %s.\n" % (i, p["title"], t)
    if getattr(m, "RULE", None):
        out += "* *Counts as an execution / oracle*: %s.\n" % m.RULE
    out += "* *Bounds*: %s.\n* *Assumptions*: %s.\n%s\n\n" % (m.BOUNDS["quick"], "; ".join(m.ASSUMPTIONS), why[i])
open(path, "w").write(head + "## 2. The properties\n" + out + "## 3. " + tail)
