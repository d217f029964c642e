"""Writes the generated part of DESIGN.md: the table of properties, and which checks catch which planted bugs."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
import mkmanifest
MARK = "<!-- generated below by tools/mkdesign.py -->"

def main():
    p = os.path.join(HERE, "..", "DESIGN.md")
    s = open(p).read().split(MARK)[0]
    out = [MARK, "", "## Per property", ""]
    for l in open(os.path.join(HERE, "..", "properties.jsonl")):
        d = json.loads(l)
        t = mkmanifest.T[d["id"]]
        src = open(os.path.join(HERE, "..", "vlib", "checks", d["id"].lower() + ".py")).read()
        n = re.search(r"quick, thorough = (\d+), (\d+)", src)
        out += ["### %s %s" % (d["id"], d["title"]), "- Method: %s." % t[0], "- Generated: %s." % t[2], "- Oracle: %s." % t[1], "- Bounds and trust: %s." % t[3],
                "- Size: %s cases quick, %s thorough. Why tests cannot: %s" % (n.group(1), n.group(2), d["why_tests_cant"]), ""]
    seeded = os.path.join(HERE, "..", "seeded")
    rows = []
    for b in sorted(os.listdir(seeded) if os.path.isdir(seeded) else []):
        m = os.path.join(seeded, b, "meta.json")
        if os.path.exists(m):
            d = json.load(open(m))
            rows.append("| %s | %s | %s | %s | %s |" % (b, d["property"], d["what_it_breaks"], d["needs"], d.get("caught_by", "not run")))
    if rows:
        out += ["## Planted bugs", "", "| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"] + rows + [""]
    open(p, "w").write(s + "\n".join(out))

if __name__ == "__main__":
    main()
