"""Writes properties.jsonl and MANIFEST.json from props/P*.json (one file per property)."""
import glob
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props, checks, not_applicable = [], [], []
for path in sorted(glob.glob(os.path.join(here, "P*.json"))):
    with open(path) as handle:
        prop = json.load(handle)
    claim = prop.pop("check", None)
    props.append(prop)
    if claim is None or not os.path.exists(os.path.join(root, "checks", prop["id"].lower() + ".py")):
        not_applicable.append(
            dict(property=prop["id"], reason=prop.pop("not_applicable", "check not built"))
        )
        continue
    checks.append(
        dict(
            property=prop["id"],
            quick_cmd=f"./run.sh {prop['id']} --tier quick",
            thorough_cmd=f"./run.sh {prop['id']} --tier thorough",
            technique=claim["technique"],
            level="exploration",
            level_note=claim["note"],
        )
    )
with open(os.path.join(root, "properties.jsonl"), "w") as handle:
    for prop in props:
        handle.write(json.dumps(prop) + "\n")
manifest = dict(
    version=1,
    setup_cmd="./setup.sh",
    hooks=dict(
        guard="VT_HOOKS",
        enable="No hooks are needed: the monitors observe the public interface of the modules; "
        "the checks import /repo directly (pure python, nothing to build).",
        source_commits=[],
    ),
    checks=checks,
    not_applicable=not_applicable,
)
with open(os.path.join(root, "MANIFEST.json"), "w") as handle:
    json.dump(manifest, handle, indent=1)
    handle.write("\n")
print(len(props), "properties,", len(checks), "claimed")
