#!/bin/bash
# blame.sh ID: shows removed lines of a seeded patch that were not in the base commit
cd /repo
B=$(git rev-list --reverse HEAD | head -1)
/usr/bin/python3 - "$1" "$B" <<'P'
import re,subprocess,sys
ID,B=sys.argv[1:]
cur=None;bad=0;n=0
ln=0
for l in open('/verif/seeded/%s/patch.diff'%ID):
    if l.startswith('--- a/'): cur=l[6:].strip(); continue
    m=re.match(r'@@ -(\d+)',l)
    if m: ln=int(m.group(1)); continue
    if l.startswith('+++') or cur is None: continue
    if l.startswith('-'):
        b=subprocess.run(['git','blame','-s','-L%d,%d'%(ln,ln),'--',cur],stdout=subprocess.PIPE,text=True).stdout
        n+=1
        if not b.startswith('^'): bad+=1; print('  NOT ORIGINAL:',b.strip())
        ln+=1
    elif l.startswith(' '): ln+=1
print('  %s removed lines: %d, not original: %d'%(ID,n,bad))
P
