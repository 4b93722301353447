#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties with a check."""
import json, subprocess
CLAIMED = {}
LOCK = "lock-step runtime monitoring against a reference machine"
def c(id, tech, note):
    CLAIMED[id] = (tech, note)
TRUST = " Trusts the reference model and decoder written for this purpose (harness/src/model.rs, dec.rs); says nothing about states the workload did not drive (evidence lists what was observed)."
for i in "C01 C02 C03 C05 C06 C08 C09 C10 C11 C12 C13 C14 C16 C25 C28".split():
    c(i, LOCK, "Every executed step is compared with the model: registers, pc, privilege, CSRs, stored bytes, and all touched memory at the end." + TRUST)
c("C04", LOCK + "; all 65536 halfwords on both XLENs", "Exhaustive over encodings, sampled over states." + TRUST)
c("C07", LOCK + "; all halfwords, all opcode/funct classes", "Exhaustive over halfwords and over the fields that select the instruction, sampled over the rest." + TRUST)
c("C18", LOCK, "CLINT histories compared with the model after each access." + TRUST)
c("C20", LOCK + "; UART input through the real binary, exactly-once in order", "UART register histories compared with the model; bytes fed to the binary come out echoed once and in order." + TRUST)
c("C19", LOCK, "PLIC histories (levels, registers, claims, completions) compared with the model after each event." + TRUST)
import importlib.util, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")
if os.path.exists(p):
    exec(open(p).read())
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
full = lambda h: subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True, check=True).stdout.strip()
man = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "cfg(carron_verif)", "enable": "RUSTFLAGS=\"--cfg carron_verif\" when the harness crate builds /repo as its path dependency (check.sh)",
              "source_commits": [full("af3d230"), full("0213332")]},
    "checks": [], "not_applicable": [],
}
for q in props:
    i = q["id"]
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        man["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                              "technique": tech, "level": "exploration", "level_note": note})
    else:
        man["not_applicable"].append({"property": i, "reason": "the check is still being built"})
json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
