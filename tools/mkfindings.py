#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt: one line per repaired defect (commit ids from /repo)."""
import subprocess
M={
    "parse errors at the end of a line": "C42",
    "output that could not be written was": "C43", "print in a script ignored": "C43", "shell integration ignored": "C43",
    "download accepted": "C32",
    "a search for the rate of return that comes close": "C28",
    "accounts that only start like the divider": "C15",
    "Text report lost the amounts of a heading without a name": "C15", # order of the fix commits -> property
"amounts beyond int64":"C02","posting amount without a currency":"C04","currency without an amount":"C04",
"impossible calendar dates":"C04","a month or day of zero":"C27","a NUL byte":"C04","unparsed text":"C04",
"a posting without an account":"C04","trailing whitespace":"C37","a circular include":"C04","an unbalanced last":"C03",
"too few decimals":"C38","Text and HTML reports without --sum":"C30","JSON postings carried":"C06","register base amounts":"C18",
"register in descending":"C19","register ignored invalid":"C19","an invalid regular":"C32","a recursive macro":"C32",
"Text report crashed":"C32","converting through the inverse":"C16","prices were exported":"C24","mapccy lost":"C08",
"operations on a duplicate":"C25","accounts were hidden":"C31","move left":"C09","accumulating a book":"C25",
"summary rows":"C15","ledger output lost":"C05","beancount output":"C06","CSV export rounded":"C06","amounts with more than 15":"C38",
"a second transaction of a day":"C05","a price without":"C04","reclassify took":"C22","import printed":"C40","HTML reports left":"C30",
"the day of the month":"C28","a failed or interrupted":"C34","import and generate crashed":"C20","a float amount":"C20",
"scripts saw the keys":"C24","anything after the first":"C40","empty fields of tab":"C40","filtering the book":"C23",
"imported text":"C20","endless recursion":"C32","the default configuration":"C36","ccy listed":"C24","concurrent web":"C35","depreciating over no":"C10","an amount elided in several":"C24",
"a balance assignment":"C04","types in the configuration":"C36","register without a type":"C32","comparing transactions":"C32","register crashed with":"C32","spaces other than":"C38","the rate of return":"C28","which note merged":"C25","amounts of currencies ending":"C38",
"a posting without an amount before":"C04",
"pending Nordigen":"C33","a null in the list":"C33","downloads keep numbers":"C33","a Monzo download without":"C33",
}
import json,sys,os
extra=json.load(open(os.path.join(os.path.dirname(__file__),'findings_extra.json'))) if os.path.exists(os.path.join(os.path.dirname(__file__),'findings_extra.json')) else {}
M.update(extra)
M.update({"move= uses its factor exactly": "C09", "a configuration file that could not be completed": "C36", "whole numbers of JSON import data": "C40", "saving through a link": "C34"})
out=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h%x09%s','c9fbb5a..HEAD'],capture_output=True,text=True).stdout
lines=["# Findings in mescanne/goledger made while building the checks.",
"# 'fixed:' entries suppress nothing; 'finding: property=<id> key=<key> <what fails>' entries would be",
"# reported as KNOWN-FINDING lines by the check whose violation has exactly that key. There are none:",
"# every genuine defect found was small enough to repair.",""]
for l in out.splitlines():
    h,s=l.split('\t'); assert s.startswith('fix: '); s=s[5:]
    k=[v for p,v in M.items() if s.startswith(p)]
    assert len(k)==1,(s,k)
    lines.append(f"fixed: property={k[0]} {h} {s}")
open('/verif/KNOWN_FINDINGS.txt','w').write('\n'.join(lines)+'\n')
