import sys
sys.path.insert(0,'/verif')
from sa.core import *
eng=Engine('/verif/model',sys.argv[1])
for q in (sys.argv[2:] or sorted(eng.changed())):
    v=eng.verdict(q)
    print(q,v.status,v.how,v.where)
    for n in v.notes[:4]: print('     ',n)
