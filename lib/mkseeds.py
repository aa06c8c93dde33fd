"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only, no check reads seeded/)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    d = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (d, m["property"], re.sub(r"\s+", " ", m["needs"]).replace("|", "/")))
t = """## Planted bugs and the checks that catch them
Each was written from a property's text and the code, verified (builds, 98 tests pass, demonstration fails with it and passes
without it), and is caught by the quick tier of its property's check. Those that were missed at first, and what changed:
d02-rate-32 (rates were all below 2^32), d06-denormals (amplitudes were all about 1); p02-last-user, s10-stale-owner, s13-queue-leak, s08-third-batch and the mutants listed under it led to longer
histories, more message sizes and stale output files in the S checks. Besides, several batches of one-line mutants (about 150 in
all) were run against the checks; survivors were equivalent changes or led to strengthening (S15 destinations, D07 long
streams, S01 longest messages, S03 abandoned bodies).

| planted bug | caught by | what it needs |
|---|---|---|
%s
""" % "\n".join(rows)
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\n## Planted bugs and the checks.*?(?=\n## |\Z)", "", s, flags=re.S).rstrip("\n") + "\n\n" + t
open(p, "w").write(s)
