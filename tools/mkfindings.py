"""Writes /verif/known-findings.json from the fix commits of /repo and the property each is about."""
import json, os, subprocess
PROP = {
 "the Python binding fails to read": "P20",
 "some SQL queries that match no files": "P11", "SQL tables get an empty schema": "P11", "SQL queries do not find files": "P11",
 "SQL predicates with dates": "P11", "SQL predicates with the literal": "P11", "SQL predicates on other": "P11",
 "order records of equal precombine": "P09", "do not hold 16 MiB": "P01", "Avro map columns": "P19",
 "schema lookup fails if a base file": "P03", "there is no latest schema once": "P19", "without completed instants": "P02",
 "time travel with filters fails": "P04", "partition filters drop all": "P10", "partition values of null": "P10",
 "incremental queries fail or miss": "P05", "opening a table with invalid": "P17", "clustering commits are not": "P13",
 "change data capture files": "P01", "log batches are merged": "P18", "nested nulls, booleans": "P18",
 "queries without filters fail": "P01", "the latest schema is only": "P19", "log blocks of failed": "P02",
 "log files without their base": "P02", "base files of failed": "P02", "rolled back log blocks": "P04",
 "log blocks outside of the queried": "P09", "log blocks whose lengths": "P14", "corrupted counts": "P14",
 "a log file ending inside": "P14", "14-digit timestamp": "P04", "commits at ambiguous": "P13", "short and non-ASCII": "P04",
 "concurrent queries of a table handle": "P07", "listing parallelism of 0": "P07", "partition fields in schema order": "P10",
 "partition values containing": "P10", "partition pruning panics": "P10",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: ") and any(s[5:].startswith(k) for k in PROP):
        p = next(v for k, v in PROP.items() if s[5:].startswith(k))
        fixed.append(f"fixed: property={p} {h} {s[5:]}")
print(len(fixed), "of", len(PROP))
old = here + "/known-findings.json"
known = json.load(open(old))["known"] if os.path.exists(old) else []
json.dump({"known": known, "fixed": fixed}, open(old, "w"), indent=1, ensure_ascii=False)
open(old, "a").write("\n")
