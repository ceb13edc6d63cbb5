import subprocess, json
lst="""491fb34 C04, 14e2485 C04, e95c650 C04, c07457f C04, 0155246 C04, 076bd09 C04, 8d114a3 C04, 7c89458 C11, effce6c C04, d6d2738 C04, 7e134f6 C20, 24cc302 C01, 51b3ddc C01, 46af49d C01, 3863ebb C03, e66eeed C11, 09217d7 C12, b4a4ff8 C12, 3666be3 C11, fcabcc8 C11, 8ea3ce8 C16, 341fdcb C11, 6a676a0 C07, 17cd9f1 C20, 03cae9e C13, 23b28a2 C13, a6d2522 C14, ac19903 C11, dc4981a C17, c0ccc0b C09, f0118ae C09, 9adc56d C10, f82f636 C10, 380691d C08, 1146aa2 C11, 7ff4a35 C15, 8fedc90 C15, 69b6078 C17, c416d8d C08, 23748e4 C08, 5f94158 C08, f9a8aa9 C08, 2653d11 C19, 4cfd9d5 C19, 5d210be C19, 01aaacf C02, 546ef94 C03, 4f95cfd C01, 5f61f05 C04, 5165c8b C04, 6fab10c C04, bf8e6a5 C04, 091e32f C05, ba74f80 C11, 8f7078e C18, df51482 C12, 07deec5 C16, 938e929 C11, 6d5e3c8 C12, a9cffd7 C21, 8e00fe6 C17, 98f6d48 C17, 91f9ba8 C18, 1e82cbd C18, df4815b C19, 1d1e7b1 C19, a064a19 C19, 9fd2d31 C19, 9f8406a C21, 67f515c C22, 0c8b3e2 C22, 923d268 C22, 4c77f12 C07, aacae5e C11, 0c057f9 C14, 53bb983 C24, fa71fb7 C24, 08b94d3 C20, 0c27184 C15, d5e45a9 C10, 4501c06 C01, c923f46 C01, c68a5ee C04, da88840 C12, 0d191b4 C18, 7324acc C04, 39486ea C12, 56bd72f C23, da732a5 C23, 57b9d65 C23, 099bba4 C23, 329ae8a C23, 648078a C23, 10762bd C23, 92025ea C23, 38920c1 C23, 8d2a3a3 C23"""
m=dict(x.strip().split() for x in lst.split(","))
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"]).decode().splitlines()
out=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    k=[x for x in m if x.startswith(h[:7]) or h.startswith(x)]
    pid=m[k[0]] if k else "??"
    if not k: print("unmapped",l)
    out.append({"status":"fixed","property":pid,"entry":"fixed: property=%s %s %s"%(pid,h,s[4:].strip())})
out.append({"status": "known", "property": "C14", "match": "JSON of a histogram with defs={'d': Expr.parse('a + b')} does not restore it",
            "what": "JSON of a histogram whose defs hold a parsed Expr object instead of a string: Hist(bin('d', 3, 0, 3), defs={'d': Expr.parse('a + b')}).tojson() is not JSON (json.dumps raises TypeError)"})
json.dump({"findings":out},open("/verif/known_findings.json","w"),indent=1)
