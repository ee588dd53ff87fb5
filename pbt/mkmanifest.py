"""Writes MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = "property-based testing with Hypothesis: "
CHECKS = {
    "C01": ("stateful generation, lockstep with a reference table",
            "Every history is compared with a plain in-memory table after each "
            "step, through every handle."),
    "C02": ("stateful generation, all versions re-read against the model",
            "Every snapshot and tag is re-read after later operations."),
    "C03": ("stateful generation over branches, tags and several handles",
            "Reference model of branches, tags and snapshot IDs; refusals are "
            "checked too."),
    "C04": ("generated filters and projections against a row-wise evaluator",
            "NOT over primary keys and key values over 4 KB are known findings "
            "and not generated."),
    "C05": ("stateful generation, change replay against the model",
            "The expected changes per snapshot come from the model."),
    "C06": ("generated histories, all crash states of an operation enumerated",
            "Crash states are the distinct on-disk states at every line of the "
            "operation, and torn versions of files not yet renamed; loss of "
            "un-fsynced data after a rename is not modelled."),
    "C07": ("generated histories with injected I/O errors and bad input",
            "An error is raised instead of an I/O call; partial effects of the "
            "failing call are not modelled."),
    "C08": ("generated interleavings of commits at I/O points of an operation",
            "Interleavings are at I/O calls before the commit's conflict check; "
            "the window between the check and the rename, documented as not "
            "atomic, is excluded."),
    "C09": ("stateful generation, invariants over manifests and statistics",
            "Manifests, Parquet files and record files are read directly."),
    "C10": ("generated schemas, round trip; generated invalid definitions",
            "Nullability and field metadata are not part of the property."),
    "C11": ("generated histories, record bytes by read, reference and index",
            "Random access is checked against the model's bytes."),
    "C12": ("generated external files, differential with appending their rows",
            "External files are compared byte for byte."),
    "C13": ("stateful generation over a catalog, reference model of names",
            "Listing, opening, duplicates, unknown names, strays, moves."),
    "C14": ("differential testing of the Ray runner against local and model",
            "Ray is not installed: a stand-in in one process with Ray's copy "
            "semantics executes the tasks; Ray's scheduling is not explored."),
    "C15": ("generated views, compared with their functions on model rows",
            "Same stand-in for Ray."),
    "C16": ("stateful generation of source histories and refreshes",
            "Same stand-in for Ray; filters with a subset of fields are a known "
            "finding."),
    "C17": ("generated joins against a nested-loop join",
            "Same stand-in for Ray."),
    "C18": ("metamorphic: relocated datasets and other file layouts",
            "Every version, diff, tag, branch, filter and reference read is "
            "compared before and after."),
    "C19": ("generated reading actions within histories; metamorphic (twice "
            "the same) with deep comparison of files and arguments",
            "Same stand-in for Ray. Equality of arguments is by a deep "
            "description of their values."),
    "C20": ("generated interleavings of open readers with histories, "
            "reference model per version",
            "Readers are advanced between operations, not during them; Ray "
            "readers are excluded."),
}

if __name__ == "__main__":
  checks = []
  for prop, (tech, note) in CHECKS.items():
    checks.append(
        dict(property=prop, quick_cmd=f"python3 pbt/run.py {prop} --tier quick",
             thorough_cmd=f"python3 pbt/run.py {prop} --tier thorough",
             evidence_file=f"evidence/{prop}.json", technique=T + tech,
             level="fault_enumeration" if prop in ("C06", "C07")
             else "exploration",
             level_note="Holds on the generated cases; bounds and domain are in "
             "DESIGN.md. " + note))
  doc = dict(
      version=1, setup_cmd="true", checks=checks, not_applicable=[],
      notes="The checks import the code from /repo's working tree (no build); "
      "they need the venv /opt/venv and Hypothesis from /opt/veriftools. No "
      "hooks are compiled into /repo. Replay a reported case with "
      "'python3 pbt/run.py --replay FILE'.")
  with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
