#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json,subprocess
DONE="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32".split()
N={
"C01":"every operand pair / register combination within the bounds executed on the real CPU and compared with a reference ALU",
"C02":"all write sequences to the stated depth on the real CPU, every view read after each",
"C03":"single-step exhaustive over forms, registers and boundary addresses, direct and virtual",
"C04":"single-step exhaustive over conditions, targets and program counters",
"C05":"all 2^24 instruction encodings executed and compared with a reference decoder/executor",
"C06":"all injected instruction sequences to the stated depth compared with a reference trap machine",
"C07":"all injected user-mode sequences to the stated depth, invariants on state and on every physical access",
"C08":"all flag/permission/mode combinations and all pages compared with a reference page walk",
"C09":"all flag combinations and access sequences to the stated depth; only dirty bits may change",
"C10":"all access sequences to the stated depth on machines with every combination of ROM size and mapping, compared with a reference physical address map",
"C12":"every object shape within the bounds loaded by the real loader; every page and permission read back through the real walk",
"C13":"all syscall/trap sequences to the stated depth through the real emulator binary and the real kernel, against a model kernel",
"C14":"all allocate/free sequences to the stated depth on the real allocator",
"C11":"all opcodes over boundary states; a panic or hang of the real emulator is the violation",
"C29":"all programs up to the length bound built through every route with the real tools and run with the real emulator, compared with reference assembler, linker and machine",
"C31":"all command sequences to the stated depth in real debugger sessions, transcripts compared with a reference machine",
"C32":"all objects of the bounded family and all file sequences listed by the real tool, compared with the objects' contents",
"C30":"a write failure is injected at every byte of every output",
}
checks=[]
import sys
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); i=d['id']
    if i not in DONE: continue
    checks.append({"property":i,
      "quick_cmd":f"bash /verif/check.sh {i}",
      "thorough_cmd":f"VERIF_TIER=thorough bash /verif/check.sh {i} thorough",
      "evidence_file":f"evidence/{i}.json",
      "technique":"fault enumeration: write failure injected at every byte, exhaustive" if i=="C30" else "explicit-state model checking: bounded exhaustive exploration of the real implementation against a reference model",
      "level":"fault_enumeration" if i=="C30" else "model_checking",
      "level_note":N.get(i,"exhaustive within the bounds listed in the evidence file")})
m={"version":1,
 "setup_cmd":"bash /verif/setup.sh",
 "hooks":{"guard":"cfg telda_verif","enable":"RUSTFLAGS='--cfg telda_verif' (set by check.sh for the harness build only)","source_commits":["445a2b7"]},
 "checks":checks,"not_applicable":[]}
m["hooks"]["source_commits"]=[subprocess.check_output(["git","-C","/repo","rev-parse","445a2b7"],text=True).strip()]
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
