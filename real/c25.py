from circ import *
from dev import *


def main():
    r = R('random sequences of additions and removals of elements with all terminals and values, lookups in between; random linear elements and sources '
          'with the netlist line they generate; distinct by description')
    tf = r.get('time_functions')

    def fields(c, e):
        """type, name, terminal names and values of an element of the circuit"""
        nm = type(e).__name__
        T = {'Resistor': 'R', 'Capacitor': 'C', 'Inductor': 'L', 'InductorCoupling': 'K', 'VSource': 'V', 'ISource': 'I', 'EVSource': 'E',
             'GISource': 'G', 'FISource': 'F', 'HVSource': 'H', 'diode': 'D', 'ekv_device': 'M', 'mosq_device': 'M', 'switch_device': 'S'}[nm]
        d = {'t': T, 'id': e.part_id}
        for k in ('n1', 'n2'):
            if T != 'K':
                d[k] = c.nodes_dict[getattr(e, k)]
        if T in 'EGS':
            d['s1'], d['s2'] = c.nodes_dict[e.sn1], c.nodes_dict[e.sn2]
        if T == 'M':
            d['g'], d['b'] = c.nodes_dict[e.ng], c.nodes_dict[e.nb]
        if T in 'RCL':
            d['v'] = e.value
        elif T in 'VI':
            d['v'] = e.dc_value
            d['ac'] = None if e.abs_ac is None else e.abs_ac * np.exp(1j * e.arg_ac)
        elif T in 'EGFH':
            d['v'] = e.alpha
        elif T == 'K':
            d['v'], d['l'] = e.K, tuple(sorted([e.L1.lower(), e.L2.lower()]))
        if T in 'FH':
            d['src'] = e.source_id
        if T in 'CL':
            d['ic'] = e.ic
        return d

    def want(e):
        T = e['t']
        d = {'t': T, 'id': e['id']}
        if T == 'K':
            return {'t': 'K', 'id': e['id'], 'v': e['v'], 'l': tuple(sorted([e['l1'].lower(), e['l2'].lower()]))}
        d['n1'], d['n2'] = e['n1'], e['n2']
        if T in 'EG':
            d['s1'], d['s2'] = e['s1'], e['s2']
        d['v'] = e['v']
        if T in 'VI':
            d['ac'] = e['ac'] if e.get('ac') else None
        if T in 'FH':
            d['src'] = e['src']
        if T in 'CL':
            d['ic'] = e.get('ic')
        return d

    def same(a, b, tol=0.):
        if set(a) != set(b):
            return False
        for k in a:
            x, y = a[k], b[k]
            if k in ('v', 'ic', 'ac'):
                if (x is None) != (y is None) or x is not None and abs(x - y) > max(tol, 1e-15) * abs(y):
                    return False
            elif k in ('id', 'src', 'l'):
                if str(x).lower() != str(y).lower():
                    return False
            elif x != y:
                return False
        return True

    def scases(q, t):
        g = r.rng('edit')
        for _ in range(r.count(q, t)):
            yield gen(g, nmax=g.randint(1, 8), emax=16, coupling=True, ac=True), gen_devs(g, ['0', 'a', 'b', '7'], 2) if g.random() < .4 else [], g.randrange(10 ** 9)

    def scase(cs):
        els, devs, s = cs
        g = random.Random(s)
        els = [dict(e, ic=g.choice([None, .5, 0])) if e['t'] in 'CL' else e for e in els]
        c = ahkab.Circuit('t')
        c.add_node('0')
        cur, todo = [], list(els)
        add_devs(c, devs)
        dv = list(c)

        def check():
            got = [fields(c, e) for e in c if e not in dv]
            r.need(len(got) == len(cur), 'edit:contents', lambda: 'elements %r, should be %r' % ([x['id'] for x in got], [x['id'] for x in cur]))
            for a, b in zip(got, cur):
                r.need(same(a, want(b)), 'edit:contents', lambda: 'element %r, should be %r' % (a, want(b)))
            for e in c:
                for n in [getattr(e, k) for k in ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb') if hasattr(e, k)]:
                    r.need(c.nodes_dict.get(c.nodes_dict.get(n)) == n and c.ext_node_to_int(c.int_node_to_ext(n)) == n, 'edit:nodes', lambda: 'node %r of %s: %r' % (n, e.part_id, c.nodes_dict))
            r.need(c.get_nodes_number() * 2 == len(c.nodes_dict), 'edit:nodes', lambda: '%r' % c.nodes_dict)
            low = [e.part_id.lower() for e in c]
            for i, e in enumerate(c):
                if low.index(low[i]) == i:
                    for nm in (e.part_id, e.part_id.lower(), e.part_id.upper()):
                        r.need(c.get_elem_by_name(nm) is e, 'edit:lookup', lambda: 'finding %r gives %r' % (nm, c.get_elem_by_name(nm).part_id))
            for nm in ['zz', '', 'R', 'Q99'] + [e['id'] for e in els if e['id'].lower() not in low]:
                for op in (c.get_elem_by_name, c.remove_elem):
                    n = list(c)
                    try:
                        op(nm)
                    except ValueError:
                        pass
                    else:
                        r.fail('edit:unknown', '%s(%r) accepted in %r' % (op.__name__, nm, low))
                    r.need(list(c) == n, 'edit:unknown', 'the circuit changed')
            ids = [e.part_id for e in c]
            r.need(bool(c.has_duplicate_elem()) == (len(set(ids)) < len(ids)), 'edit:duplicate', lambda: 'duplicates of %r: %r' % (ids, c.has_duplicate_elem()))
            str(c)
        for _ in range(3 * len(els)):
            if todo and (g.random() < .7 or not cur):
                e = todo[0]
                have = [x['id'] for x in cur]
                if e['t'] == 'K' and not (e['l1'] in have and e['l2'] in have):
                    try:
                        add(c, e)
                        r.fail('edit:coupling', 'coupling %r of missing inductors accepted in %r' % (e, have))
                    except ValueError:
                        pass
                    todo.pop(0)
                    check()
                    continue
                add(c, e)
                cur.append(e)
                todo.pop(0)
                if g.random() < .1 and e['t'] == 'R':
                    # a duplicate name is reported
                    try:
                        c.add_resistor(e['id'], e['n1'], e['n2'], 3.)
                        ok, why = r.get('utilities.check_circuit')(c)
                        r.need(c.has_duplicate_elem() and not ok, 'edit:duplicate', lambda: 'duplicate %s: %r %r' % (e['id'], ok, why))
                        del c[len(c) - 1]
                    except r.get('circuit.CircuitError'):
                        pass
            elif cur:
                e = g.choice(cur)
                if e['t'] == 'L' and any(x['t'] == 'K' and e['id'] in (x['l1'], x['l2']) for x in cur) or any(x.get('src') == e['id'] for x in cur):
                    continue
                el = c.get_elem_by_name(e['id'])
                c.remove_elem(g.choice([el, e['id'], e['id'].swapcase()]))
                cur = [x for x in cur if x is not e]
            check()
        # the equations of the edited circuit are the ones of the circuit built directly
        if devs or not cur or any(e.get('src') and e['src'] not in [x['id'] for x in cur] for e in cur):
            return
        used = set(n for e in cur for n in (e.get('n1'), e.get('n2'), e.get('s1'), e.get('s2')) if n) | {'0'}
        r.need(set(n for n in c.nodes_dict if isinstance(n, str)) == used, 'edit:nodes', lambda: 'nodes %r, elements use %r' % (c.nodes_dict, used))
        nums = sorted(n for n in c.nodes_dict if not isinstance(n, str))
        if nums != list(range(len(nums))):
            return
        M, N = r.get('dc_analysis.generate_mna_and_N')(c, verbose=0)
        M2, N2 = law_static(cur)
        nd, nv = numbering(cur), len(vdelems(cur))
        perm = [c.nodes_dict[n] for n in sorted(nd, key=nd.get)] + list(range(len(nd), len(nd) + nv))
        r.need(M.shape == M2.shape and np.allclose(M[np.ix_(perm, perm)], M2, atol=1e-14) and np.allclose(N[perm], N2, atol=1e-14), 'edit:equations', lambda: '%r should be %r' % (M[np.ix_(perm, perm)], M2))

    TFS = [('sin', lambda g: dict(vo=g.choice([0., .5, -1.]), va=g.choice([1., 2.5]), freq=g.choice([1e3, 50.]), td=g.choice([0., 1e-4]), theta=g.choice([0., 100.]), phi=g.choice([0., 90., -30.]))),
           ('pulse', lambda g: dict(v1=g.choice([0., -1.]), v2=g.choice([1., 3.3]), td=g.choice([0., 1e-4]), tr=1e-5, tf=2e-5, pw=g.choice([1e-4, 3e-4]), per=1e-3)),
           ('exp', lambda g: dict(v1=g.choice([0., -1.]), v2=g.choice([1., 3.3]), td1=g.choice([0., 1e-4]), tau1=g.choice([1e-4, 2e-4]), td2=1e-3, tau2=g.choice([1e-4, 3e-4]))),
           ('sffm', lambda g: dict(vo=g.choice([0., .5]), va=g.choice([1., 2.5]), fc=g.choice([1e3, 5e3]), mdi=g.choice([.5, 1.]), fs=100., td=g.choice([0., 1e-4]))),
           ('am', lambda g: dict(sa=g.choice([1., 2.]), oc=g.choice([.5, 1.]), fm=100., fc=g.choice([1e3, 5e3]), td=g.choice([0., 1e-4])))]

    def lcases(q, t):
        g = r.rng('line')
        for _ in range(r.count(q, t)):
            els = [e for e in gen(g, nmax=5, emax=8, coupling=True, ac=True)]
            els = [dict(e, ac=e['ac'].real if isinstance(e['ac'], complex) else e['ac']) if e.get('ac') is not None else e for e in els]
            out = []
            for e in els:
                e = dict(e)
                for k in ('n1', 'n2', 's1', 's2'):
                    if k in e:
                        e[k] = e[k].lower()
                if e['t'] in 'VI' and g.random() < .6:
                    n, mk = g.choice(TFS)
                    e['tf'] = (n, mk(g))
                if e['t'] in 'CL':
                    e['ic'] = g.choice([None, 0., .25, -2.])
                out.append(e)
            yield out

    def lcase(els):
        c = ahkab.Circuit('t')
        c.add_node('0')
        for e in els:
            if e.get('tf'):
                f = getattr(tf, e['tf'][0])(**e['tf'][1])
                f._type = e['t']
                kw = {'ac_value': e['ac']} if e.get('ac') is not None else {}
                (c.add_vsource if e['t'] == 'V' else c.add_isource)(e['id'], e['n1'], e['n2'], e['v'], function=f, **kw)
            else:
                add(c, e)
        lines = [e.get_netlist_elem_line(c.nodes_dict) for e in c]
        if not any('0' in (e.get('n1'), e.get('n2')) for e in els):
            lines.append('rgnd 0 %s 1' % [e for e in els if 'n1' in e][0]['n1'] if any('n1' in e for e in els) else '')
        c2 = parse(lines)
        r.need(c2 is not None, 'line:rejected', lambda: 'the netlist %r is rejected' % (lines,))
        for e, (a, b) in zip(els, zip(c, c2)):
            fa, fb = fields(c, a), fields(c2, b)
            r.need(same(fb, fa, 1e-5), 'line:element', lambda: 'line %r gives %r, from %r' % (a.get_netlist_elem_line(c.nodes_dict), fb, fa))
            if e['t'] in 'VI':
                r.need(bool(a.is_timedependent) == bool(b.is_timedependent), 'line:source', lambda: '%r: time dependent %r' % (a.get_netlist_elem_line(c.nodes_dict), b.is_timedependent))
                if e.get('tf'):
                    for t in np.linspace(0, 3e-3, 61):
                        x, y = a._time_function(t), b._time_function(t)
                        r.need(abs(x - y) <= 1e-4 * (abs(x) + 5), 'line:source', lambda: '%r: %g at %g, should be %g' % (a.get_netlist_elem_line(c.nodes_dict), y, t, x))

    def hole(cs):
        i, n = cs
        c = ahkab.Circuit('t')
        for k in range(n):
            c.add_resistor('R%d' % k, 'n%d' % k, '0', 1. + k)
            c.add_isource('I%d' % k, 'n%d' % k, '0', 1.)
        c.remove_elem('R%d' % i)
        c.remove_elem('I%d' % i)
        try:
            op = ahkab.run(c, ahkab.new_op())['op']
            v = dict((k, float(np.real(op['Vn%d' % k]).reshape(-1)[0])) for k in range(n) if k != i)
        except Exception as e:
            v = '%s: %s' % (type(e).__name__, e)
        r.need(v == dict((k, v.get(k)) for k in range(n) if k != i) and all(abs(v[k] + 1. + k) < 1e-6 for k in v) if isinstance(v, dict) else False, 'edit:hole' if i < n - 1 else 'edit:last',
               'removing the elements of node number %d of %d, the operating point is %r' % (i + 1, n, v))

    r.section('purged node', [(i, n) for n in (2, 3, 4) for i in range(n)], hole, maxfail=99)
    r.section('edit', scases(400, 8000), scase)
    r.section('netlist line', lcases(400, 8000), lcase)
    r.done()


if __name__ == '__main__':
    main()
