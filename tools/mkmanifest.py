#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand after changing what is claimed)."""
import json,sys
TECH="contract-based deductive verification of the real Go code (gover: weakest-precondition style VCs from /repo's SSA, z3/cvc5 back ends)"
TECHS={
 "C26":TECH[:-1]+"; the lexer's table is proved language-equal, token by token, to the contract of the token types by automata)",
 "C27":"contract-based deductive verification of the real Go code: a frame (modifies) obligation for every function a parse reaches and ownership/ordering obligations for once-written and lock-guarded memory, discharged on the SSA by gover's ownership rules",
 "C28":TECH[:-1]+" for the measures of the parser's rule functions; loop variants and recursion measures of all other functions discharged by gover's ranking rules)",
}
NOTE="proof: every obligation of the functions under contract for this property is generated from /repo's current source and discharged on each run, for all inputs; a differential run of the real code only supplies failing inputs and covers functions out of reach (labelled bounded). "
claims=json.load(open('/verif/tools/claims.json'))
m={"version":1,"setup_cmd":"tools/build.sh","checks":[],"not_applicable":[]}
for p,n in claims["claimed"].items():
    m["checks"].append({"property":p,"quick_cmd":f"tools/check.sh {p} quick","thorough_cmd":f"tools/check.sh {p} thorough","technique":TECHS.get(p,TECH),"level":"proof","level_note":NOTE+n})
for p,r in claims["not_applicable"].items():
    m["not_applicable"].append({"property":p,"reason":r})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
