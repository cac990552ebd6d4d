#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the list of claimed properties.
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
AI="path-sensitive abstract interpretation of the SSA form with inferred loop invariants, function contracts and receiver invariants"
claimed={}
def c(i,technique,level,note): claimed[i]=dict(property=i,quick_cmd="sh check.sh "+i,thorough_cmd="sh check.sh "+i,technique=technique,level=level,level_note=note)
exec(open(root+"/tools/claims.py").read())
NA={
"C34":"Equality of a decoded value with the encoded one quantifies over runtime values of both sides at once; its structural parts (wire grammar on both sides, scalar exactness, field tables) are decided by C15-C20, C30 and C33, the whole is not in reach of a static argument here.",
"C35":"Isomorphism of pointer graphs quantifies over heap shapes at run time; the clauses visible in the code (what a reference is written for, what it resolves to, track bits) are decided by C20, C21 and C27.",
"C36":"The decoder recurses once per nesting level with no limit, so the property is false for documents of many megabytes of nested references (stack limit 1 GB) and a static bound on stack depth does not exist in this code; recorded in DESIGN.md as a known weakness. A depth limit would be a change of interface, not a repair.",
"C37":"Running time is a quantitative runtime property (map operations, reflection, library codecs); no static cost analysis in reach bounds it. Its structural core, progress of every loop and recursion, is C05.",
}
na=[dict(property=i,reason=NA.get(i,"The check is not built yet.")) for i in ids if i not in claimed]
m=dict(version=1,setup_cmd="sh check.sh setup",checks=[claimed[i] for i in ids if i in claimed],not_applicable=na,
 notes="Every check builds the analyzer in /verif/analyzer and runs it on the current source of /repo/Go/sereal; nothing of /repo is executed. See DESIGN.md.")
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
