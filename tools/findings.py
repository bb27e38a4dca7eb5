import subprocess,re
txt="""28e801f C11;7d64cc6 C01;289d89c C02;b68e666 C13;2e71a83 C06;d82d58e C12;a54925b C19;906e659 C20;fc0a8a0 C10;0528985 C27;510b581 C02;b6fcbe8 C02;4e5fab3 C02;03570b8 C07;56fedb2 C12;adaf63c C14;dcb9dac C07;1ecb780 C07;702f2a2 C09;c463fe9 C19;6f85295 C19;7da0fd6 C19;ecdadb5 C19;556415f C26;8a08b04 C26;7d56d3e C25;b283977 C21;39df00f C21;83daaad C12;339a284 C18;d47573d C17;f660bd5 C18;5b6cc19 C27;65f7818 C18;9691b2a C15;6cb6d78 C15;d2e9ea0 C15;c401970 C15;795e437 C15;231907a C15;6477cb1 C16;62a6d1b C16;0ce6af8 C16;96f927e C16;4217b40 C16;bcea4ee C16;a2fbe09 C16;011d66e C17;409f624 C17;0ad5075 C23;390d6d1 C23;84337fb C23;a33ea92 C23;4a7bab9 C20;b4c2457 C01;da88578 C27;1cb4b4a C21;48c09b4 C25;71f6871 C21;909c528 C22;b09e871 C07;3975320 C06;397e76a C06;d929c4e C07;de29041 C13;4966db6 C24;7e7d04b C20;160050b C20;4df1e24 C20;b89ad7f C27;7a13c68 C02;833999c C22;f24cfa3 C14;e4ef078 C19;6ff6ab5 C23;a6faa51 C19;6516816 C19;704afaf C19;8072499 C19;e6a1f63 C20;89a3578 C26;6571cae C26;bb733f7 C20"""
m=dict(reversed(x.split()) if 0 else (x.split()[0],x.split()[1]) for x in txt.split(';'))
log=subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h,s=l.split(' ',1)
    if s.startswith('fix:'):
        p=m.get(h[:7])
        if not p: print('no prop',h[:7],s); continue
        out.append("fixed: property=%s %s %s"%(p,h[:10],s[4:].strip()))
open('/verif/known_findings.txt','w').write("\n".join(out)+"\n")
print(len(out))
