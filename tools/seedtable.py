"""Writes the table of planted bugs at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAUGHT = {
    "c13-lost-stop": "missed at first: the stand-in for rclpy.ok() said that ROS was down, so the waiting request gave up; now a request that is never answered is seen",
    "c19-empty-document": "missed at first: an accepted file may not be empty (rule added to EditTrace and to the property)",
}


def main():
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read()
    head = text[:text.index("## 8. Planted bugs")]
    rows = []
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {TAUGHT.get(d, '')} |")
    with open(path, "w") as f:
        f.write(head + "## 8. Planted bugs\n\n`seeded/<id>/` (patch.diff, demo.sh, meta.json; built by `tools/seeddrive.py`, tried by `tools/tryseed.sh`; table by\n"
                "`tools/seedtable.py`). Each is caught by the check of its property, in the quick tier.\n\n"
                "| planted bug | caught by | what it breaks | what it taught |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")


main()
