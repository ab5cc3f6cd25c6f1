#!/usr/bin/env python3
"""writes MANIFEST.json from the contract files that exist"""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
NA = {
    "C22": "the deductive engine has no concurrency logic (locks are no-ops, execution is sequential); no verifier for C++ threads with ownership reasoning is installed, and schedules cannot be decided by a sequential contract",
    "C23": "the guarantee depends on the netCDF C++ library and the file system, for which there is neither source in the tree nor a usable contract; the code around it is calls into that library",
}
BASE = "Over exact reals: every obligation generated from the current sources is discharged for all inputs; rounding, overflow and underflow are not modelled. Trusted: clang front end, the dvc symbolic semantics and simplifier, z3, libm/libstdc++ contracts in dvc/ext.py. "
NOTE = {}
nf = "tools/level_notes.json"
if os.path.exists(nf):
    NOTE = json.load(open(nf))
checks, na = [], []


def level(i):
    """proof, unless every contract has a stated bound"""
    names, tagged = set(), set()
    for f in glob.glob("contracts/%s_*.cc" % i):
        t = open(f).read()
        names |= set(re.findall(r"^VP_CONTRACT\((\w+)\)", t, re.M))
        tagged |= set(re.findall(r"^// CONTRACT (\w+):.*bounded", t, re.M))
    return "other" if names <= tagged else "proof"


BOUNDED = "Every contract has a stated bound on the number of objects involved (listed in the evidence); within it, over exact reals, every obligation generated from the current sources is discharged for all values. Not a proof for every number of objects. "
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if glob.glob("contracts/%s_*.cc" % i) and i not in NA:
        checks.append(dict(property=i, quick_cmd="python3-vt dvc/run_check.py %s --tier quick" % i, thorough_cmd="python3-vt dvc/run_check.py %s --tier thorough" % i,
                           technique="contract-based deductive verification of the compiled C++ (VC generation over LLVM IR, z3)", level=level(i),
                           level_note=(BOUNDED if level(i) == "other" else "") + BASE + NOTE.get(i, "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not reached yet: no contracts written for this part")))
m = dict(version=1, setup_cmd="python3-vt dvc/run_check.py --setup", checks=checks, not_applicable=na,
         notes="Contracts in contracts/<id>_*.cc over the real headers and sources; engine in dvc/. See DESIGN.md. No hooks in /repo are needed.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
