"""writes the table of planted changes at the end of DESIGN.md"""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(p)); rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
s = open(here + "/DESIGN.md").read()
i = s.index("## 7. Which checks catch which planted changes")
open(here + "/DESIGN.md", "w").write(s[:i] + "## 7. Which checks catch which planted changes\n\nAll listed changes are reported by the quick tier of the check in the last column.\n\n| change | what it breaks | needs | check |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
