import json, subprocess
log = subprocess.run(['git','-C','/repo','log','--format=%h %s','--reverse'],capture_output=True,text=True).stdout.splitlines()
H = {l.split(' ',1)[1]: l.split()[0] for l in log}
def h(pref):
    for s,c in H.items():
        if pref in s: return c
    raise SystemExit('no commit '+pref)
fixed = [
 ('C07','searches factors of p','grid choice read an unset lower candidate when only 1 divides below the ideal'),
 ('C07','no longer indexes the factor table','grid choice read outside the factor table for p larger than the build machine'),
 ('C14','runs the kernel selected','multiplies other than K-first always ran the 6x16 kernel whatever shape the context names'),
 ('C09','M/N-first B packing pads','M/N-first B packing padded every last-depth block and read past the columns of B'),
 ('C10','N-first C packing places edge','N-first C packing put edge blocks where neither multiply nor unpacking reads them'),
 ('C12','online and 2-D K-first no longer read','online and 2-D multiplies read past the last row of A and column of B'),
 ('C15','online K-first sets the shared','online multiply wrote the shared A offset inside its parallel loop'),
 ('C17','transpose_mat threads','transposition threads wrote each other\'s edge blocks'),
 ('C22','checkers report a NaN','checkers accepted results with NaN'),
 ('C16','cake_sgemm variants free the context','multiplies leaked the context they query when given none'),
 ('C16','system queries close','system queries leaked their pipes'),
 ('C21','get_cache_size recognises','a cache size given in G was read as the previous field'),
 ('C21','cake_query_cntx_torch sets','the second context constructor left kernel-table fields and others unset'),
 ('C20','never picks an empty tile','automatic tiling chose a zero or negative tile size when the caches are smaller than the kernel needs, and the multiply then divided by zero'),
]
base='prod api=%s M=7 N=17 K=5 p=2 mr=6 nr=16 mc=6 kc=4 nc=16 pa=0 pb=0 alpha=%d beta=%d L1=32768 L2=1048576 L3=8388608 ncores=4 reps=1 own=0 seed=7'
F=[]
for api in ('KMN','MKN','NKM','online','2d'):
    F.append(dict(property='C19', what='alpha other than 1 is ignored (%s)'%api, case=base%(api,2,0)))
for api in ('KMN','online','2d'):
    F.append(dict(property='C19', what='beta other than 0 is ignored (%s)'%api, case=base%(api,1,1)))
for api in ('MKN','NKM'):
    F.append(dict(property='C19', what='beta other than 0 and 1 is treated as 1 (%s)'%api, case=base%(api,1,2)))
json.dump(dict(findings=F, fixed=['fixed: property=%s %s %s'%(a,h(b),c) for a,b,c in fixed]), open('/verif/known_findings.json','w'), indent=1)
