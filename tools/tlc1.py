import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
os.makedirs('build/x',exist_ok=True)
t=vlib.Tlc('build/x')
rc,out=t.run(sys.argv[1],sys.argv[2],workers=8,timeout=int(sys.argv[3]) if len(sys.argv)>3 else 300,args=sys.argv[4:],xmx='12g', ov=vlib.overrides() if os.environ.get('OV') else None)
print(rc, vlib.tail(out,3500))
