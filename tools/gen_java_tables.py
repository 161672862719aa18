#!/usr/bin/env python3
"""Writes java/StdTables.java from spec/Tables.tla (run once; the result is committed)."""
import re
t=open('/verif/spec/Tables.tla').read()
def get(name):
    m=re.search(r'^%s == (.*?)(?=^\S+ ==|^\\\*|^====)'%name,t,re.S|re.M)
    return eval(m.group(1).replace('<<','[').replace('>>',']'))
def arr(x): return '{'+','.join(arr(y) if isinstance(y,list) else str(y) for y in x)+'}'
o='/** Generated by tools/gen_java_tables.py from spec/Tables.tla. */\nfinal class StdTables {\n'
for n,d in (('Pi',1),('MatA',2),('RC',2),('KuzCoef',1),('MagmaPi',2)):
    o+='    static final int%s %s = %s;\n'%('[]'*d,n,arr(get(n)))
open('/verif/java/StdTables.java','w').write(o+'}\n')
