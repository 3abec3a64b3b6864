"""Selects machines whose simulation exercises many rule kinds (untrusted selection; run by hand)."""
import sys, random, multiprocessing as mp, signal, glob, collections
sys.path.insert(0,'/repo/Code'); sys.path.insert(0,'/verif/harness')
from Macro import Simulator, Turing_Machine
import IO, tms
def run(a):
  text,block,back,rec,lim=a
  signal.signal(signal.SIGALRM, lambda *x: (_ for _ in ()).throw(TimeoutError()))
  signal.alarm(10)
  try:
    o=Simulator.create_default_options(); o.recursive=rec; o.limited_rules=lim
    m=IO.parse_tm(text)
    if block>1: m=Turing_Machine.Block_Macro_Machine(m,block)
    if back: m=Turing_Machine.Backsymbol_Macro_Machine(m)
    s=Simulator.Simulator(m,o)
    for i in range(1500):
      s.step()
      if s.op_state!=Turing_Machine.RUNNING or not isinstance(s.step_num,int) or s.step_num>200000: break
    p=s.prover
    lim_rules=sum(1 for r in p.rules.values() if isinstance(r,list))
    return a,(s.op_state,s.num_rule_moves,p.num_rules,p.num_meta_diff_rules,p.num_linear_rules,p.num_exponential_rules,p.num_gen_rules,p.num_collatz_rules, lim_rules, s.step_num if isinstance(s.step_num,int) else -1)
  except Exception as e:
    return a,None
  finally: signal.alarm(0)
def main():
  rng=random.Random(5)
  T=set()
  for f in glob.glob('/tmp/h2.*')+glob.glob('/tmp/r2.*')+['/verif/corpus/champ.txt','/verif/corpus/run.txt','/verif/corpus/halt.txt','/verif/corpus/named.txt','/verif/corpus/quasi.txt']:
    for l in open(f):
      if l.strip(): T.add(l.split()[0])
  T=sorted(T); rng.shuffle(T)
  jobs=[(t,rng.choice([1,1,2,2,3,4]),rng.random()<.5,True,False) for t in T]
  jobs+=[(t,rng.choice([1,1,2,2,3,4]),rng.random()<.5,rng.random()<.5,True) for t in T[::3]]
  seen=collections.Counter(); out=[]
  with mp.Pool(8) as p:
    for a,r in p.imap_unordered(run,jobs,chunksize=50):
      if not r: continue
      st,rm,nr,md,li,ex,ge,co,lr,n=r
      if rm<2: continue
      key=(st,min(rm,20)//4,min(nr,6)//2,md>0,li>0,ex>0,ge>0,co>0,lr>0)
      if seen[key]<6:
        seen[key]+=1; out.append((a,r))
  for k,v in sorted(seen.items(), key=str): print(k,v,file=sys.stderr)
  for a,r in out: print(a[0],a[1],int(a[2]),int(a[3]),int(a[4]),'#',*r)
main()
