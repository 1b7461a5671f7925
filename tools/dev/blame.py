import subprocess,re,os
o=subprocess.run('git -C /repo log --format=%h',shell=True,stdout=subprocess.PIPE,text=True).stdout.split()
first=o[-1]
for n in sorted(os.listdir('/verif/seeded')):
    p=open('/verif/seeded/%s/patch.diff'%n).read()
    f=None; bad=[];tot=0
    for l in p.split('\n'):
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+++') or not f: continue
        if l.startswith('-'):
            b=subprocess.run(['git','-C','/repo','blame','-s','-L','%d,%d'%(ln,ln),'HEAD','--',f],stdout=subprocess.PIPE,text=True).stdout
            tot+=1
            if not (b.startswith('^') or first.startswith(b[:7])): bad.append((ln,b[:60]))
            ln+=1
        elif l.startswith(' '): ln+=1
    print(n,tot,'BAD' if bad else '',bad[:3])
