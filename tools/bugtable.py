"""Writes the table of planted bugs into DESIGN.md."""
import glob, json, re
rows = ["| bug | property | what it does | what it needs |", "|---|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {d.split('/')[3]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
text = ("<!-- bugs -->\nEach of them is reported by the check of the property in its row.\n\n"
        + "\n".join(rows) + "\n<!-- /bugs -->")
s = open("/verif/DESIGN.md").read()
s = re.sub("<!-- bugs -->.*<!-- /bugs -->", lambda _: text, s, flags=re.S)
open("/verif/DESIGN.md", "w").write(s)
