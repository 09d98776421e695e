"""Development aid: wittry.py FOLDER: judge the witness programs of a folder."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import wit, witgen
class C:
    def rule(self, i, ok, t):
        if ok is not True: print({None: "UNDECIDED", False: "VIOLATED"}[ok], i); print("\n".join(t.split("\n")[:int(os.environ.get("N","14"))]))
        else: self.n = getattr(self, "n", 0) + 1
c = C()
ps = [p for f in sys.argv[1].split(',') for p in ((wit.programs(f) if f != 'c27' else []) + (witgen.ALL[f]() if f in witgen.ALL else []))]
if len(sys.argv) > 2: ps = [p for p in ps if any(a in p.name for a in sys.argv[2:])]
wit.run(c, ps); print(getattr(c, "n", 0), "hold")
