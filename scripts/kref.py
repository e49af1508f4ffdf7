import mpmath
mp=mpmath.mp; mp.dps=1230
import time
t=time.time()
g=+mp.glaisher; print('glaisher',time.time()-t,flush=True)
k=+mp.khinchin; print('khinchin',time.time()-t,flush=True)
open('/verif/lib/constants_ref.txt','w').write('glaisher %s\nkhinchin %s\n'%(mpmath.nstr(g,1220,strip_zeros=False),mpmath.nstr(k,1220,strip_zeros=False)))
