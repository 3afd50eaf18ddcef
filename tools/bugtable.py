# prints the table of planted bugs for DESIGN.md from a log of lines "<id> <property> ... check:<rc> ['class']"
import sys, re, json, os
rows = ["| planted bug | needs | reported as |", "|---|---|---|"]
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) .*check:(\d) \[(?:'(\S+)')?", l)
    if m: rows.append("| %s | %s | %s |" % (m[1], json.load(open("seeded/%s/meta.json" % m[1]))["needs"].replace("|", "/"), "`%s`" % m[4] if m[3] == "1" else "**missed**"))
print("\n".join(rows))
