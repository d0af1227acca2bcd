import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
comp={'P19','P20','P21'}
checks=[]
for p in P:
    i=p['id']
    if i in('P19','P20'): tech="explicit-state model checking of the real code: every operation sequence in lockstep with an abstract model (exhaustive)"
    elif i=='P21': tech="explicit-state model checking of the real code: every insertion/removal sequence over a bounded number window, in lockstep with a set model, plus protocol-level exploration"
    elif i=='P18': tech="explicit-state model checking of the real code under a simulated kernel with every system-call failure injected at every call"
    elif i=='P17': tech="explicit-state model checking of the real code under a simulated kernel with enumerated malformed inputs"
    else: tech="explicit-state model checking of the real code under a simulated kernel, network and clock, with a lockstep reference model"
    note="Every reachable state (or every history up to the stated depth) of each bounded configuration is visited by executing the real library; the property is checked after every action and again after settling and shutting down from the ends of the exploration. Trusts the simulated kernel in mc/kernel.hpp, the reference models, 64-bit state fingerprints, and that behaviour at the configured bounds (few peers, packets, timeouts) is representative; most configurations compile the library with a 96-byte packet limit, some with the real 65 kB one."
    if i in('P19','P20'): note="All reachable shapes of the structure within the stated sizes, all operations and arguments, against an abstract model, on the real code with AddressSanitizer. Trusts the abstract model and that the bounded sizes are representative."
    if i=='P02': note+=" Two recorded defects (KF1, KF2) are reported as known findings."
    if i=='P24': note+=" One recorded defect (KF3) is reported as a known finding."
    checks.append(dict(property=i,quick_cmd=f"python3 check.py {i} --tier quick",thorough_cmd=f"python3 check.py {i} --tier thorough",evidence_file=f"evidence/{i}.json",technique=tech,level="model_checking",level_note=note))
m=dict(version=1,setup_cmd="bash -c 'd=$(mktemp -d) && bash mc/build.sh $d small && rm -rf $d'",checks=checks,not_applicable=[],notes="No hooks in /repo: the library is compiled unmodified and its system calls are redirected with objcopy --redefine-syms. Counterexamples: python3 check.py <PID> --replay evidence/<PID>-<config>.replay")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
