#!/usr/bin/env python3
# appends a "fixed:" line for every fix: commit of /repo not yet listed; arg: property for the new ones (or map by hand)
import subprocess,os,sys
f=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","known-findings.txt")
have=open(f).read()
out=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],stdout=subprocess.PIPE,text=True).stdout
M={"083916f":"F01","4ac5d72":"F02","0a4853a":"F03","16245a0":"F01","ab42f94":"F03","01b7466":"F01","40c64d9":"F02","e27cccc":"F02","43f40e0":"F04","2fe3b92":"F04","740f101":"F04","eea65ed":"F04",
"110ebdf":"F05","6859e79":"F07","1349e0a":"F07","641670b":"F07","f3beefd":"M01","03a2441":"M01","e000891":"M01","bf5d642":"M01","d55721b":"M02","6eb22f2":"M02"}
M.update({"a7a6666":"C05","5bd5e02":"C01","6ecf1d4":"C03","6694054":"C02","31cbed7":"C03","524b537":"C03","0663da9":"C04","e0f2613":"C04","2d16c85":"C03","7cb7f67":"C10",
"6f3c373":"C10","f533aed":"C05","9d9107e":"C05","ddc152f":"C07","9a5c642":"C07","384d1ef":"C06","1a5c804":"C06","088543d":"C08","35ac8a7":"C07","250dead":"C07"})
M.update({'7de750d': 'C07', '75b33d7': 'C05', 'ce73c48': 'C05', 'b4a4343': 'C05'})
M.update({'9852203': 'C04', 'a38fa46': 'C04', '4f05070': 'C09', '00a94b7': 'C04'})
M.update({"5663a1e": "C09", "c6abd02": "C09"})
M.update({"4e93e5d": "C10", "1a64bf4": "C10", "4ba0fa5": "C10", "a8e9700": "C10"})
M.update({"66d5a30": "C13", "ffc4d20": "C12", "b542259": "C14", "6317e7a": "C11", "7bbee91": "C14", "8612240": "M04"})
for h in "d1db47d 5e3e1e6 b17e68e 309d4d3 f0416a1".split(): M[h]="B01"
for h in "48fa4b3 30b846f 9aaaca3 87d01dd a4f408b 9b20c1b".split(): M[h]="A01"
for h in "2cd32ce e27b803 9a1456e 098d8ad 597f63a a6ac74e".split(): M[h]="M03"
for h in "eeb88b1 0ac6958 fa8efef 1de017b c6dbce3 3c1aa7d 86a0b42 66b6386 860ceac aac53cf".split(): M[h]="F06"
with open(f,"a") as o:
    for l in out.splitlines():
        h,s=l.split(" ",1)
        if not s.startswith("fix:") or " "+h+" " in have: continue
        p=M.get(h) or (sys.argv[1] if len(sys.argv)>1 else None)
        assert p,l
        o.write("fixed: property=%s %s %s\n"%(p,h,s[5:]))
