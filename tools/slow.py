import re,sys
c=[]
for l in open('/tmp/q.txt'):
    m=re.match(r"   (\w+) (\{.*?\}) (complete|PARTIAL).*'solver_time': ([\d.]+)",l)
    if m and (float(m.group(4))>3 or 'undecided' in l): c.append((float(m.group(4)),m.group(1),m.group(2),'und' if 'undecided' in l else ''))
for x in sorted(c,reverse=True)[:25]: print(*x)
