#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, checks/table.py, known_findings.txt and seeded/."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks.table import CHECKS
ORACLE = {
 "C01": "polynomials over GF(2), one bit at a time", "C02": "the same; prime factors of 2^128-1", "C03": "the 128-bit value",
 "C04": "arbitrary-precision arithmetic on the value", "C05": "a model of the moduli installed and saved per thread",
 "C06": "counts of outcomes; a canary around the range", "C07": "exact rational statistical distance",
 "C08": "AES-CTR over BoringSSL's block function", "C09": "recursive expansion", "C10": "the full tree",
 "C11": "filing by the hash values themselves; one thread", "C12": "reference insertion with eviction; simple hashing",
 "C13": "the published formula in exact or long arithmetic", "C14": "ideal functionality; global set of leaves",
 "C15": "equality of views", "C16": "ideal functionality", "C17": "ideal functionality", "C18": "ideal functionality",
 "C19": "the relation; model of delta and lengths", "C20": "completion; types of messages; empty pipes",
 "C21": "the relations; one thread; happens-before", "C22": "equality of views; counts of masks", "C23": "status; nothing sent; nothing touched; next operation correct",
 "C24": "sets of everything used so far",
 "C25": "closed formulas for transfers and bytes; a model of the leftovers",
 "C26": "the parameter table; an account of all elements; the cost formula",
 "C27": "guard elements; copies of the inputs; the protocols' relations; moduli and threads before",
 "C28": "the relations; the same computation alone; happens-before"}
TIMES = {}
try: TIMES = json.load(open(R + "/tools/times.json"))
except OSError: pass
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
table = "\n".join("| %s %s | %s | %s | %s |" % (p["id"], p["title"], CHECKS[p["id"]]["note"], ORACLE[p["id"]], TIMES.get(p["id"], "")) for p in props)
fixes = []
for l in open(R + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixes.append("* %s (%s): %s" % m.groups())
try: res = json.load(open(R + "/tools/bugs.json"))
except OSError: res = {}
bugs = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % d))
    bugs.append("| %s | %s | %s; needs %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], res.get(d, m["property"])))
s = open(R + "/tools/DESIGN.in.md").read()
s = s.replace("@@TABLE@@", table).replace("@@FIXES@@", "\n".join(fixes)).replace("@@BUGS@@", "\n".join(bugs))
open(R + "/DESIGN.md", "w").write(s)
