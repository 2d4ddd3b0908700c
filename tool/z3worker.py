import sys, json, z3
path, tmo, seed, names = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), json.loads(sys.argv[4])
s = z3.Solver()
s.set('timeout', int(tmo * 1000))
if seed:
    s.set('random_seed', seed)
if seed == 7:
    s.set('smt.arith.solver', 2)
s.from_file(path)
r = s.check()
out = {'r': str(r), 'why': s.reason_unknown() if r == z3.unknown else ''}
if r == z3.sat:
    m = s.model(); vals = []
    ds = {d.name(): d for d in m.decls()}
    for n, (nm, k) in names.items():
        if n in ds:
            v = m[ds[n]]
            if z3.is_algebraic_value(v): v = v.approx(20)
            vals.append([nm, k, str(v) if not z3.is_rational_value(v) else f'{v.numerator_as_long()}/{v.denominator_as_long()}'])
        else: vals.append([nm, k, None])
    out['model'] = vals
print(json.dumps(out))
