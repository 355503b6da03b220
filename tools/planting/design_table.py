import json,glob,os,re
p="/verif/DESIGN.md"; s=open(p).read()
s=re.sub(r"\n## Planted bugs.*?(?=\n## |\Z)","",s,flags=re.S)
by={}
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m)); by.setdefault(d["property"],[]).append((i,d["needs"]))
t="\n## Planted bugs\n\nEach is caught by the quick check of its own property (`tools/plant.sh --check`):\n\n| check | planted bug | needs |\n|---|---|---|\n"
for k in by:
    for i,n in by[k]: t+=f"| {k} | {i} | {n} |\n"
n=sum(map(len,by.values()))
t+="""
Missed at first, and led to stronger checks: P03-custom-suffix (near misses of entities: one innermost detail changed),
P03-abandoned-entry (long lists), P05-wide (wide names), B01-lookup-suffix (lookups of parts of paths), S01-exact-share
(thresholds which are exactly the share of some activity), T01-early-start, T02-tiny-overlap (quarters of microseconds),
U03-directory (commands recorded for another directory), B05-late-descendants.

Besides, mutants (`tools/mutation`) were made by hand for the interface (140: 104 caught, 4 do not build, 1 noticed by the
tests, 31 not caught) and mechanically for the libraries (119 tried: 39 caught, 50 noticed by the tests, 17 do not build,
13 survive). Survivors were read one by one: those that change
behaviour led to stronger checks (nearly equal activity names in S01, confusable constants and symbols with parentheses
of their own in T04, structure errors in S03), the others change nothing that a property speaks of: order of equal rows,
wording, refresh rates, tables that are out of sight, conditions which cannot arise.
"""
i=s.index("\n## Findings")
s=s[:i]+t+s[i:]
open(p,"w").write(s); print(n)
