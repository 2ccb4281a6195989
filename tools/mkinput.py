import json,glob,os,sys,math
out=sys.argv[1]
R_SUN=6.957e8/1.495978707e11; 
# read constants
src=open('/repo/src/constants.rs').read()
for l in src.splitlines():
    if 'R_SUN' in l or 'M2AU' in l: print(l)
seen={}
for f in sorted(glob.glob('/repo/tests/data/*/case.json')):
    d=json.load(open(f)); u=d['universe']
    for e in u['particles_evolvers']:
        k=json.dumps(e['evolution'])
        if k not in seen and e['time']:
            seen[k]=(f,u['initial_time'],e); print(k,len(e['time']),f)
AU=1.495978707e11; RS=6.957e8/AU; M2AU=1/AU
def w(p,rows):
    os.makedirs(os.path.dirname(os.path.join(out,p)),exist_ok=True)
    with open(os.path.join(out,p),'w') as f:
        for r in rows: f.write(' '.join(repr(x) for x in r)+'\n')
open(os.path.join(out,'empty.dat'),'w').close()
for k,(f,t0,e) in seen.items():
    ev=e['evolution']; (name,arg),=ev.items()
    ts=[(t+t0)/365.25 for t in e['time']]
    if name=='Baraffe1998':
        if arg==1.0: w('Baraffe_1998/SRad_Spli_M-1_0000.dat',[(t,r/M2AU) for t,r in zip(ts,e['radius'])])
        else: w('Baraffe_1998/01Msun.dat',[(t,r/RS) for t,r in zip(ts,e['radius'])])
    if name=='LeconteChabrier2013':
        w('Leconte_Chabrier_2013/Jupiter.dat',[(t,r/M2AU,l,g,0.0,0.0) for t,r,l,g in zip(ts,e['radius'],e['love_number'],e['radius_of_gyration_2'])])
    if name=='Leconte2011':
        w('Leconte_2011/mass_80.0000.dat',[(t,r/RS) for t,r in zip(ts,e['radius'])])
        w('Leconte_2011/rg2BD.dat',[(t,)+(g,)*12 for t,g in zip(ts,e['radius_of_gyration_2'])])
    if name=='Baraffe2015':
        w('Baraffe_2015/%04d_Msun.dat'%round(arg*1000),[(t,0.0,r/RS,g) for t,r,g in zip(ts,e['radius'],e['radius_of_gyration_2'])])
    if name=='BolmontMathis2016':
        w('Bolmont_Mathis_2016/L10Z02r.dat',[(t,r/RS,q) for t,r,q in zip(ts,e['radius'],e['inverse_tidal_q_factor'])])
    if name=='GalletBolmont2017':
        w('Gallet_Bolmont_2017/M_10_Z_0134.dat',[(math.log10(t),0.,0.,r/RS,0.,0.,0.,0.,0.,0.,math.log10(1/q)) for t,r,q in zip(ts,e['radius'],e['inverse_tidal_q_factor'])])
