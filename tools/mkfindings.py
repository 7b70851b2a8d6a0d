import subprocess
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','b75d3ca..HEAD'],capture_output=True,text=True).stdout.splitlines()
m={'comparing a nonzero Fp':'C01','element_from_bytes in Fp':'C07','setting a faster':'C07','halving an odd':'C01','zeroth power':'C05','zero products':'C01','hashing to an integer':'C14','square roots of base':'C06','count every byte':'C13','strip leading zeroes':'C03','zero is a square':'C06','batched point':'C04','squareness test in curve':'C06','malformed string':'C13','encoding of O':'C08','darray_remove_with':'C18','copying an empty':'C18','Montgomery mult':'C01'}
try:
    exec(open('/verif/tools/kfmap.py').read())
except FileNotFoundError: pass
out=[]
for l in log:
    h,s=l.split(' ',1)
    assert s.startswith('fix: '),s
    pid=[v for k,v in m.items() if k in s]
    assert pid,s
    out.append("fixed: property=%s %s %s"%(pid[0],h,s[5:]))
old=[l for l in open('/verif/known_findings.txt')] if __import__('os').path.exists('/verif/known_findings.txt') else []
out+= [l.rstrip('\n') for l in old if l.startswith('finding:')]
open('/verif/known_findings.txt','w').write("\n".join(out)+"\n")
print(len(out))
