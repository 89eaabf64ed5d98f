from circ import *
import tempfile
import shutil


def main():
    r = R('result objects of every analysis run on random circuits and, fed directly, with random samples (extreme, zero, negative values, one to '
          'many samples), read through every accessor in random letter case and read back from their files; delimited files with random '
          'headers and numbers; distinct by contents')
    tmp = tempfile.mkdtemp(prefix='c19-')
    try:
        run(r, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    r.done()


def rcase(g, s):
    return ''.join(g.choice([c.upper(), c.lower()]) for c in s)


def num(g):
    return g.choice([0., 1., -1., g.uniform(-5, 5), g.uniform(-1, 1) * 10 ** g.uniform(-200, 200), 10 ** g.uniform(-20, 12), 1 / 3.])


def run(r, tmp):
    csv = r.get('csvlib')
    cnt = [0]

    def fname():
        cnt[0] += 1
        return os.path.join(tmp, 'f%d' % cnt[0])

    def flat(x):
        return np.asarray(x).reshape(-1)

    def agree(sol, names, data, g, exact=True, what=''):
        """every accessor returns these samples under these names"""
        tol = 0. if exact else 1e-12

        def eq(a, b, key, w):
            a, b = flat(a), flat(b)
            r.need(a.shape == b.shape, key, lambda: '%s %s: %d samples, %d stored' % (what, w, a.size, b.size))
            r.need(bool(np.all(np.abs(a - b) <= tol * np.abs(b))), key, lambda: '%s %s: %r, stored %r' % (what, w, a[:5], b[:5]))
        keys = [str(k) for k in sol.keys()]
        r.need([k.upper() for k in keys] == [n.upper() for n in names], 'res:keys', lambda: '%s keys %r for %r' % (what, keys, names))
        r.need(len(sol) == len(names), 'res:len', lambda: '%s length %d for %r' % (what, len(sol), names))
        vals = list(sol.values())
        items = list(sol.items())
        its = list(iter(sol))
        its2 = [q for q in sol]
        r.need(len(vals) == len(items) == len(its) == len(its2) == len(names), 'res:agree', lambda: '%s: %d values, %d items, %d iterated, %d names' % (
            what, len(vals), len(items), len(its), len(names)))
        for k, n in enumerate(names):
            eq(vals[k], data[k], 'res:values', 'value ' + n)
            for lst, w in ((items, 'items'), (its, 'iteration'), (its2, 'second iteration')):
                nm, d = lst[k]
                r.need(str(nm).upper() in (n.upper(), '|%s|' % n.upper()), 'res:agree', lambda: '%s: %s names %r at %d' % (what, w, nm, k))
                eq(d, data[k], 'res:agree', w + ' ' + n)
            for q in (n, n.upper(), n.lower(), rcase(g, n)):
                eq(sol[q], data[k], 'res:get', 'sample under ' + q)
                eq(sol.get(q), data[k], 'res:get', 'sample under ' + q)
                r.need(q in sol and sol.has_key(q), 'res:contains', lambda: '%s: %r is not found' % (what, q))
        for q in ('nosuch', 'V(nosuch)', 'I(nosuch)', ''):
            r.need(q not in sol and not sol.has_key(q), 'res:contains', lambda: '%s: %r is found' % (what, q))
            dflt = object()
            r.need(sol.get(q, dflt) is dflt, 'res:get', lambda: '%s: get of an unknown name' % what)
            try:
                v = sol[q]
            except KeyError:
                pass
            else:
                r.fail('res:get', '%s: %r returns %r' % (what, q, v))
        if hasattr(sol, 'asarray') and hasattr(sol, 'units') and getattr(sol, 'sol_type', '') != 'PZ':
            a = np.asarray(sol.asarray())
            r.need(a.shape[0] == len(names), 'res:array', lambda: '%s: array of shape %r' % (what, a.shape))
            for k in range(len(names)):
                eq(a[k], data[k], 'res:array', 'array row %d' % k)

    # ---- result objects fed with samples
    def fed():
        g = r.rng('fed')
        for k in range(r.count(150, 1500)):
            kind = ['tran', 'dc', 'ac', 'op', 'pss', 'pz'][k % 6]
            els = gen(g, 'RCLVIE', nmax=4, emax=6)
            yield kind, els, g.choice([1, 2, 3, 7]), g.randrange(10 ** 9)

    def feed(case):
        kind, els, n, s = case
        g = random.Random(s)
        res = r.get('results')
        c = build(els)
        d, vd = numbering(els), vdelems(els)
        nn = ['V' + x for x in sorted(d, key=d.get) if x != '0']
        names = nn + ['I(%s)' % e['id'].upper() for e in vd]
        f = fname()
        m = len(names)
        if m == 0:
            return
        X = np.array([[num(g) for _ in range(n)] for _ in range(m)])
        ax = sorted(num(g) for _ in range(n))
        if kind == 'op':
            X, E = X[:, :1], np.array([[num(g)] for _ in range(m)]) * 0
            sol = res.op_solution(X, E, c, f, 3)
            agree(sol, names, X, g, what='op')
            sol.write_to_file()
            data, h = csv.load_csv(f)[:2]
            r.need([x.upper() for x in h] == [x.upper() for x in names], 'res:file', lambda: 'op file has %r' % h)
            r.need(np.array_equal(data, X), 'res:file', 'op file')
            return
        if kind == 'tran':
            sol = res.tran_solution(c, 0., 1., None, 'trap', f)
            for t, k in zip(ax, range(n)):
                sol.add_line(t, X[:, k:k + 1])
            sol.lock()
            first = 'T'
        elif kind == 'dc':
            class Op(object):
                pass
            first = g.choice(['VSRC', 'ISRC'])
            sol = res.dc_solution(c, 0., 1., first, 'LIN', f)
            for t, k in zip(ax, range(n)):
                sol.add_op(t, res.op_solution(X[:, k:k + 1], X[:, k:k + 1] * 0, c, None))
        elif kind == 'pss':
            sol = res.pss_solution(c, 'shooting', 1., f)
            sol.set_results(np.array([ax]), X)
            first = 'T'
        elif kind == 'ac':
            ax = [abs(v) for v in ax]
            C = np.array([[complex(g.uniform(-2, 2), g.uniform(-2, 2)) * 10 ** g.uniform(-9, 9) * g.choice([0, 1, 1, 1]) for _ in range(n)] for _ in range(m)])
            sol = res.ac_solution(c, 1., 2., n, 'LIN', None, f)
            for t, k in zip(ax, range(n)):
                sol.add_line(t, C[:, k:k + 1])
            agree(sol, ['f'] + names, np.vstack((np.array([ax]), C)), g, exact=False, what='ac')
            data, h = csv.load_csv(f)[:2]
            r.need(h[0] == 'f' and len(h) == 1 + 2 * m, 'res:file', lambda: 'ac file has %r' % h)
            for k, nme in enumerate(names):
                r.need(h[1 + 2 * k].upper() == ('|%s|' % nme).upper() and h[2 + 2 * k].upper() == ('arg(%s)' % nme).upper(), 'res:file', lambda: 'ac file has %r' % h)
                r.need(bool(np.all(np.abs(data[1 + 2 * k] - np.abs(C[k])) <= 1e-12 * np.abs(C[k]))), 'res:file', 'magnitude of ' + nme)
            return
        else:
            P = np.array([complex(g.uniform(-2, 2), g.uniform(-2, 2)) * 10 ** g.uniform(0, 9) for _ in range(g.randint(0, 4))])
            Z = np.array([complex(g.uniform(-2, 2), 0) for _ in range(g.randint(0, 3))])
            if not len(P) and not len(Z):
                return
            sol = res.pz_solution(c, P, Z, f)
            names = ['p%d' % k for k in range(len(P))] + ['z%d' % k for k in range(len(Z))]
            vals = list(np.sort_complex(P)) + list(np.sort_complex(Z))
            agree(sol, names, [np.array([v]) for v in vals], g, what='pz')
            data, h = csv.load_csv(f)[:2]
            r.need(h == sum([['Re(%s)' % q, 'Im(%s)' % q] for q in names], []), 'res:file', lambda: 'pz file has %r' % h)
            r.need(np.array_equal(flat(data), np.array(sum([[v.real, v.imag] for v in vals], []))), 'res:file', lambda: 'pz file holds %r for %r' % (data, vals))
            return
        agree(sol, [first] + names, np.vstack((np.array([ax]), X)), g, what=kind)
        r.need(np.array_equal(flat(sol.get_x()), np.array(ax)) and sol.get_xlabel() == first, 'res:x', lambda: kind + ' independent variable')
        data, h = csv.load_csv(f)[:2]
        r.need([x.upper() for x in h] == [x.upper() for x in [first] + names], 'res:file', lambda: '%s file has %r' % (kind, h))
        r.need(np.array_equal(data, np.vstack((np.array([ax]), X))), 'res:file', kind + ' file')

    # ---- results of analyses
    def runs():
        g = r.rng('run')
        for k in range(r.count(24, 200)):
            els = [{'t': 'V', 'id': 'V1', 'n1': 'in', 'n2': '0', 'v': 2., 'ac': 1.}, {'t': 'R', 'id': 'Ra', 'n1': 'in', 'n2': 'Mid', 'v': 10 ** g.uniform(0, 4)},
                   {'t': 'L', 'id': 'Lx', 'n1': 'Mid', 'n2': '7', 'v': 10 ** g.uniform(-6, -2)}, {'t': 'R', 'id': 'Rb', 'n1': '7', 'n2': '0', 'v': 10 ** g.uniform(0, 4)},
                   {'t': 'C', 'id': 'C1', 'n1': '7', 'n2': '0', 'v': 10 ** g.uniform(-9, -5)}]
            g.shuffle(els)
            yield ['op', 'dc', 'ac', 'tran', 'pz', 'symbolic', 'tf', 'pss'][k % 8], els, g.randrange(10 ** 9)

    def runone(case):
        kind, els, s = case
        g = random.Random(s)
        c = build(els)
        f = fname()
        if kind == 'op':
            an = ahkab.new_op(outfile=f)
        elif kind == 'dc':
            an = ahkab.new_dc(0, 3, 4, 'V1', outfile=f)
        elif kind == 'ac':
            an = ahkab.new_ac(1, 1e5, 5, outfile=f)
        elif kind == 'tran':
            an = ahkab.new_tran(0, 1e-4, 1e-5, x0=None, outfile=f)
        elif kind == 'pz':
            an = ahkab.new_pz('V1', ('7', '0'), outfile=f)
        elif kind == 'pss':
            an = ahkab.new_pss(1e-4, points=8, method='brute-force', outfile=f)
        else:
            an = ahkab.new_symbolic(source='V1' if kind == 'tf' else None, outfile=f)
        res = ahkab.run(c, an)
        tf = kind == 'tf'
        if tf:
            kind = 'symbolic'
        if kind not in res:
            return
        sol = res[kind]
        if kind == 'symbolic':
            sol = sol[1 if tf else 0]
        if kind == 'symbolic':
            names = [str(k) for k in sol.keys()]
            r.need(len(sol) == len(names) == len(set(n.upper() for n in names)), 'res:keys', lambda: 'symbolic keys %r' % names)
            its = list(sol)
            vals = list(sol.values())
            for k, nme in enumerate(names):
                r.need(str(its[k][0]) == nme and str(its[k][1]) == str(vals[k]) and str(sol.items()[k][1]) == str(vals[k]), 'res:agree', lambda: 'symbolic %s: %r' % (nme, its[k]))
                for q in (nme, nme.lower(), nme.upper()):
                    r.need(str(sol[q]) == str(vals[k]) and q in sol and sol.has_key(q) and str(sol.get(q)) == str(vals[k]), 'res:get', lambda: 'symbolic ' + q)
            r.need('nosuch' not in sol and sol.get('nosuch', 5) == 5, 'res:contains', 'symbolic unknown name')
            back = type(sol).load(sol.filename)
            r.need([(str(a), str(b)) for a, b in back.items()] == [(str(a), str(b)) for a, b in sol.items()], 'res:file', lambda: 'symbolic saved %r, read %r' % (sol.items(), back.items()))
            return
        names = [str(k) for k in sol.keys()]
        data = [np.array(v) for v in sol.values()]
        agree(sol, names, data, g, exact=False, what=kind)
        d, h = csv.load_csv(sol.filename)[:2]
        if kind in ('tran', 'dc', 'op', 'pss'):
            r.need([x.upper() for x in h] == [x.upper() for x in names], 'res:file', lambda: '%s file has %r for %r' % (kind, h, names))
            for k in range(len(names)):
                r.need(np.array_equal(flat(d[k]), flat(data[k])), 'res:file', lambda: '%s file, %s' % (kind, names[k]))

    # ---- delimited files
    def files():
        g = r.rng('csv')
        for k in range(r.count(250, 2500)):
            h = list(dict.fromkeys(g.choice(['T', 'Va', 'VB', 'I(V1)', '|Vx|', 'arg(Vx)', 'x%d' % j, 'Re(p0)', 'f']) for j in range(g.randint(1, 6))))
            blocks = [[[num(g) for _ in range(m)] for _ in h] for m in [g.choice([1, 1, 2, 5]) for _ in range(g.randint(1, 4))]]
            yield h, blocks, g.randrange(10 ** 9)

    def onefile(case):
        h, blocks, s = case
        g = random.Random(s)
        f = fname()
        for k, b in enumerate(blocks):
            csv.write_csv(f, np.array(b), h, append=k > 0)
        D = np.hstack([np.array(b) for b in blocks])
        n = D.shape[1]
        r.need(csv.get_headers(f) == h, 'csv:headers', lambda: 'headers %r for %r' % (csv.get_headers(f), h))
        data, hh, pos, eof = csv.load_csv(f)
        r.need(hh == h and np.array_equal(data, D) and pos == n and eof, 'csv:all', lambda: 'read %r %r at %r %r, wrote %r' % (hh, data, pos, eof, D))
        q = g.sample(h, g.randint(1, len(h)))
        data, hh, pos, eof = csv.load_csv(f, load_headers=[rcase(g, x) for x in q])
        r.need(hh == q and np.array_equal(data, D[[h.index(x) for x in q]]), 'csv:some', lambda: 'asked for %r, read %r %r' % (q, hh, data))
        sk, ns = g.randint(0, n - 1), g.randint(1, n + 1)
        data, hh, pos, eof = csv.load_csv(f, load_headers=[], nsamples=ns, skip=sk)
        e = D[:, sk:sk + ns]
        r.need(np.array_equal(data, e), 'csv:slice', lambda: 'samples from %d, %d of them: %r, stored %r' % (sk, ns, data, e))
        r.need(pos == sk + e.shape[1] and bool(eof) == (sk + ns >= n), 'csv:pos', lambda: 'position %r, end %r after %d from %d of %d' % (pos, eof, ns, sk, n))
        try:
            csv.load_csv(f, load_headers=['nosuch'], verbose=0)
        except ValueError:
            pass
        else:
            r.fail('csv:missing', 'unknown header loaded')

    # ---- the dictionary behind lookups
    def dicts():
        g = r.rng('dict')
        for k in range(r.count(300, 3000)):
            yield [(g.choice(['set', 'set', 'get', 'del']), rcase(g, g.choice(['Va', 'vb', 'I(V1)', 'x', 'T'])), g.randrange(100)) for _ in range(g.randint(1, 12))]

    def onedict(ops):
        d = r.get('results.case_insensitive_dict')()
        ref = {}
        for op, n, v in ops:
            if op == 'set':
                d.update({n: v})
                ref[n.upper()] = v
            r.need(d.get(n, -1) == ref.get(n.upper(), -1) and (n in d) == (n.upper() in ref) == d.has_key(n), 'dict:get', lambda: '%r: %r' % (n, d.get(n)))
            r.need(sorted(k.upper() for k in d.keys()) == sorted(ref) and len(d) == len(ref) and len(d.values()) == len(ref), 'dict:keys', lambda: '%r' % d.items())
            r.need(sorted((k.upper(), x) for k, x in d.items()) == sorted(ref.items()), 'dict:items', lambda: '%r' % d.items())
            r.need(sorted(k.upper() for k in d) == sorted(ref), 'dict:iter', 'iteration')
            if n.upper() not in ref:
                try:
                    d[n]
                except KeyError:
                    pass
                else:
                    r.fail('dict:get', 'unknown key %r' % n)
            else:
                r.need(d[n] == ref[n.upper()], 'dict:get', 'key ' + n)

    r.section('fed', fed(), feed, priv=True)
    r.section('runs', runs(), runone)
    r.section('files', files(), onefile)
    r.section('dict', dicts(), onedict, priv=True)


if __name__ == '__main__':
    main()
