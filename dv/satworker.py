import sys, z3
s = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'max-bv-sharing', 'bit-blast', 'aig', 'sat'), int(float(sys.argv[2]) * 1000)).solver()
s.from_file(sys.argv[1]); print(s.check())
