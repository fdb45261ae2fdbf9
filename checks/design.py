import sys,re,json,glob,subprocess
sys.path.insert(0,'/verif/checks')
from props import P
from table import CHECKS, NOT_APPLICABLE
heads={}
def head(src):
    t=[]
    for l in open('/verif/harness/'+src):
        if l.startswith('//'): t.append(l[2:].strip())
        elif t: break
        elif l.startswith('#') : continue
    return ' '.join(t)
out=['## Harnesses\n','What each one does and asserts; every check is a set of jobs, a job is a harness with defines (`checks/table.py`).\n']
use={}
for i,c in CHECKS.items():
    for j in c['jobs']: use.setdefault(j['src'],set()).add(i)
for s in sorted(use): out.append('* `%s` (%s): %s'%(s,', '.join(sorted(use[s])),head(s)))
out.append('''
Why this reaches what the tests cannot: the tests run one value, one schedule and no crash per case; here every id, key, size or byte
that is marked symbolic stands for all its values at once, and each crash point, failing call, damaged byte or schedule within the
bounds is explored. The oracle is never the code itself: it is the reference map of `harness/db.h` (the last write of each id and key
wins), the reference of the partition ranges, the model of the file system (what was written), or the definition of the function
(numbers, JSON, CRC, trees, uuids) written independently in the harness.
''')
out.append('## Properties: how each is decided\n')
for x in P:
    i=x['id']
    if i in CHECKS:
        c=CHECKS[i]; js=[j for j in c['jobs'] if not j['thorough_only']]
        cost=''
        try:
            e=json.load(open('/verif/evidence/%s.json'%i)); cost=' Cost of quick here: about %d s.'%round(e['wall_s'])
        except Exception: pass
        out.append('* **%s %s** (%s; %s; %d jobs, %d of them thorough only). Bounds: %s Outside: %s.%s%s'%(i,x['title'],c['level'],', '.join('`%s`'%s for s in sorted({j['src'] for j in c['jobs']})),len(c['jobs']),len(c['jobs'])-len(js),c['bounds'],c['outside'],' Assumes: '+'; '.join(c['assumptions'])+'.' if c.get('assumptions') else '',cost))
    else: out.append('* **%s %s**: not applicable: %s.'%(i,x['title'],NOT_APPLICABLE[i]))
out.append('''
Notes. C25: equality of two CRC implementations is a statement about xors of input bits; the executor keeps such values in a GF(2)
normal form, in which two equal functions are the same expression, and falls back to Z3 otherwise. C03, C04, C13 and C16 contain jobs
in which an earlier refresh failed, because then three sources of events are merged. C06 to C11, C13, C17, C18, C28, C29, C31 number
the system calls of the modelled file system: the number at which the process dies or a call fails is a symbolic value. C14, C15,
C30: the choice of the thread at each synchronisation point is explored with a bound on preemptions (forced switches are free);
deadlocks, releasing a lock that is not held and waiting for oneself are violations raised by the executor.
''')
def bugs():
    o=['## Planted bugs\n','Each was written from a property and the code, is confirmed to pass the 589 tests and to fail its demonstration, and is kept in `seeded/`.\n','| bug | caught by | needs | effect |','|---|---|---|---|']
    for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
        m=json.load(open(d)); o.append('| %s | %s | %s | %s |'%(d.split('/')[-2],m['property'],m['needs'],m['what_it_breaks']))
    o.append('\nAll are caught by the quick check of their property. Checks strengthened because a planted bug was missed at first: C03 (cursor above\nevents of the memory table being refreshed), C04 (two cursors), C05 (delete overwritten in a batch that fails), C10 (garbage\ncollection after failed refreshes), C13 (restart between two refreshes), C16 (several regions and a restart).')
    return '\n'.join(o)
f='/verif/DESIGN.md'; s=open(f).read()
if '@@PER@@' in s: open('/verif/checks/design.tmpl','w').write(s)
s=open('/verif/checks/design.tmpl').read()
s=s.replace('@@PER@@','\n'.join(out)).replace('@@BUGS@@',bugs())
open(f,'w').write(s)
