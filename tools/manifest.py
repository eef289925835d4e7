"""Regenerates MANIFEST.json from the checks present (run by hand, output committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "TLA+ model of the chunker (Chunker.tla), crafted boundary inputs and fragmentations replayed, stored trees judged by TLC",
 "C02": "TLA+ Repo.tla / TreePairs.tla transitions replayed on the program, fetched tree compared with the model's",
 "C03": "TLA+ PathJoin.tla: every stored name / pre-existing destination of the model replayed, unprivileged",
 "C04": "TLA+ Repo.tla behaviours replayed; the stored object table judged against the content-address rule at every step",
 "C05": "TLA+ Repo.tla behaviours replayed (and cut at every write); closure of references judged on every reached database",
 "C06": "TLA+ Repo.tla transition cover replayed on the program",
 "C07": "TLA+ Repo.tla transition cover and long behaviours replayed on the program",
 "C08": "TLA+ Repo.tla failing transitions plus a fault at every system call of every command, judged by the model's no-change rule",
 "C09": "TLA+ Disk.tla crash images enumerated from recorded write logs, every image reopened and judged",
 "C10": "TLA+ Txn.tla interleavings (TLC) replayed on real processes through a scheduler shim",
 "C11": "TLA+ Txn.tla commands with faults; injected fault at every system call, exit status judged against the recorded effect",
 "C12": "TLA+ KeyText.tla, every modelled store/text pair replayed",
 "C13": "TLA+ KeyText.tla, every modelled store/text pair replayed",
 "C14": "TLA+ TreePairs.tla: every pair of small trees replayed through compare and status",
 "C15": "TLA+ HashCache.tla transition cover replayed, with the cache on and off",
 "C16": "TLA+ Nearest.tla behaviours replayed from every directory",
 "C17": "TLA+ TreePairs.tla / Repo.tla checkout transitions replayed, unprivileged",
 "C18": "TLA+ TreePairs.tla / Guard.tla checkout transitions replayed, unprivileged",
 "C19": "TLA+ SnapRule.tla: every modelled tree/exclusion replayed",
 "C20": "TLA+ Repo.tla HEAD-switching fragment replayed",
 "C21": "TLA+ Repo.tla commit graphs built for real; log and show output judged by TLC with the model's Chain and Changed operators",
 "C22": "TLA+ Patch.tla: printed patches judged by TLC's Apply operator",
 "C23": "TLA+ Repo.tla read-only transitions replayed, database and tree compared",
 "C24": "TLA+ Repo.tla init transitions replayed",
 "C26": "TLA+ Repo.tla listing transitions and behaviours replayed, every listing compared with the model's tree",
 "C27": "TLA+ Shared.tla: versions of a file in chunker units checked by TLC, realised in bytes, what the program adds judged by SharedJudge.tla",
 "C28": "TLA+ Repo.tla states written as repositories by the form in Format.tla, each transition replayed on them; stored bytes judged by Format.tla",
 "C25": "TLA+ Txn.tla interleavings (TLC) replayed on real store connections",
}
LEVEL = {"C08": "fault_enumeration", "C09": "fault_enumeration", "C11": "fault_enumeration"}
NOTE = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "notes.py")) else None
NA = globals().get("NA", {})
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(ROOT, f)) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "env VERIF_TIER=thorough python3 " + f,
                       "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": LEVEL.get(i, "model_checking"),
                       "level_note": NOTE.get(i, "Exhaustive on the stated finite model; the program is bound to it by replaying the model's transitions and comparing every observable. Assumes the concretisation of names and contents is representative and TLC is right.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
