import sys,subprocess,os,json,shutil
def bug(id, prop, needs, breaks, edits, demo):
    """edits: [(file, old, new)]"""
    w='/tmp/w/repo'
    if os.path.exists(w): shutil.rmtree(w)
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,a,b in edits:
        p=os.path.join(w,f); s=open(p).read()
        n=s.count(a)
        assert n>=1,(id,f,a)
        if isinstance(b,tuple):
            b,which=b
            parts=s.split(a); assert len(parts)>which+1,(id,f,len(parts))
            s=a.join(parts[:which+1])+b+a.join(parts[which+1:])
        else:
            assert n==1,(id,f,a,n)
            s=s.replace(a,b)
        open(p,'w').write(s)
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','wb').write(subprocess.check_output(['git','diff'],cwd=w))
    shutil.copy('/verif/tools/demo-template.sh',d+'/demo.sh')
    open(d+'/demo.rs','w').write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
PRE='''use aeonflux::{amacs,elgamal,nonces::*,pedersen,proofs};
use signal_credential::{issuer::*,user::*,credential::*,parameters::*,phone_number::*};
use curve25519_dalek::{ristretto::*,scalar::Scalar,traits::*,constants::*};
use rand::{thread_rng,ChaChaRng,SeedableRng,RngCore};
use merlin::Transcript;
fn fail(s:&str)->! { println!("BROKEN: {}",s); std::process::exit(1) }
fn setup()->(SystemParameters,SignalIssuer){ let p=SystemParameters::hunt_and_peck(&mut thread_rng()); let i=SignalIssuer::create(p,&mut thread_rng()); (p,i) }
fn holder(p:SystemParameters,i:&SignalIssuer,n:&[u8])->SignalUser{ let mut u=SignalUser::new(p,i.get_issuer_parameters(),None,n).unwrap(); let x=i.issue(n,&mut thread_rng()).unwrap(); u.obtain_finish(Some(&x)).unwrap(); u }
'''
ALLOW='#![allow(unused_imports,dead_code,non_snake_case,unused_mut,unused_variables)]\n'
