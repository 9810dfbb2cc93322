#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of decided properties."""
import json, os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
SEQ="explicit-state model checking of the real instruction handlers: breadth-first enumeration of all operation sequences, in lockstep with a reference model"
PRB=SEQ+", with differential probes in every state"
MAT="exhaustive enumeration of a finite call space executed on the real instruction handlers"
LIBT="exhaustive enumeration of a bounded input domain on the real library functions against an independent wide-integer reference"
T={}
for i in "C05 C06 C13 C14 C15 C19 C27 C28 C29 C31 C03 C09 C11 C33".split(): T[i]=SEQ
for i in "C01 C02 C04 C10 C12 C30 C07 C08 C34 C35 C36".split(): T[i]=PRB
for i in "C16 C17 C18 C25 C26 C32".split(): T[i]=MAT
for i in "C20 C21 C22 C23 C24".split(): T[i]=LIBT
DONE=os.environ.get("DONE","").split() or [p["id"] for p in props]
NOTE={}
base="Complete within the alphabets and depths written to the evidence file; values outside the alphabets and longer histories are not covered. Trusts the re-implemented Solana runtime (harness/src/svm.rs), the published SPL token, ATA and metadata crates, native 64-bit execution in place of BPF, and the reference model."
libb="Complete for the input domains written to the evidence file; other inputs are not covered. Trusts the wide-integer reference (harness/src/refmath.rs)."
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in DONE:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":T[i],"level":"model_checking","level_note":libb if T[i]==LIBT else base})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo are needed: the checks drive the program through its entry point and public library functions. Repairs of genuine defects are listed in known_findings.txt."}
json.dump(m,open(R+"/MANIFEST.json","w"),indent=1)
print(len(checks),len(na))
