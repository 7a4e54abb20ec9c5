# lists seeds whose patch changes lines that are not of the original repository
cd /repo
for d in /verif/seeded/*/; do python3 - $d <<'P'
import sys,re,subprocess
f=None;bad=[]
for l in open(sys.argv[1]+'patch.diff'):
    if l.startswith('--- a/'): f=l[6:].strip(); b=subprocess.run(['git','blame','-s',f],stdout=subprocess.PIPE,text=True).stdout.split('\n')
    elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif f and l[0]=='-' and not l.startswith('---'):
        if not b[n-1].startswith('^'): bad.append((f,n,b[n-1]))
        n+=1
    elif f and l[0]==' ': n+=1
if bad: print(sys.argv[1],bad)
P
done
