#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table below."""
import json,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
src=''.join(open(os.path.join(V,'harness/props',f)).read() for f in sorted(os.listdir(V+'/harness/props')) if f.endswith('.go'))
have=set(re.findall(r'ID:\s*"(C\d\d)"',src))
T={
"C35":"race detector (-race build) plus an output-equivalence monitor over concurrent requests, in-process and over HTTP loopback",
"C34":"crash and fault injection (kill points, size limits, failing syscalls) on real state files with an offline monitor of what is left on disk",
"C33":"fault-injecting HTTP stand-in for the banks with an offline monitor comparing the state file with what was sent",
"C41":"stand-in bank, browser and user around the real binary, with a monitor of every request that reaches the bank and of the state file",
"C04":"hostile and mutated inputs on the real binary and in-process, monitored for crashes, hangs, and books violating the invariants",
"C43":"fault injection (limits of file size, full device, failing system calls, input in pieces) on the real binary with a monitor comparing against its undisturbed run",
"C24":"repeated runs of the real binary with a byte-equality monitor",
}
D="runtime monitoring: the real code run on generated workloads, every execution compared online with an independent exact reference model"
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",
            technique=T.get(i,D),level="exploration",
            level_note="decided by an oracle observing executions of the real code on seeded workloads; see DESIGN.md for the bounds"))
    else:
        na.append(dict(property=i,reason="check not built yet"))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
