"""C04: how a nonlinear device enters the residual and the Jacobian."""
import z3
from .model import *

D = 'ahkab.dc_analysis.'


def update(eng):
    it = new_interp(eng)

    def driver():
        n = z3.Int('n')
        no = z3.Int('n_out')
        eng.assume(z3.And(n >= 0, no >= 0))
        nd = uf('n_drive', Z, Z)
        O1, O2, P1, P2 = uf('out_p', Z, Z), uf('out_m', Z, Z), uf('drive_p', Z, Z, Z), uf('drive_m', Z, Z, Z)
        cur, con = uf('current', Z, R), uf('conductance', Z, Z, R)
        X = uf('x', Z, R)
        t = z3.Real('t')
        x = it.arr((n, 1), lambda i, j: X(to_int(i)))
        V = lambda k: z3.If(k == 0, z3.RealVal(0), X(k - 1))

        def outs(o):
            o = to_int(o)
            eng.fact_once(('o', o.sexpr()), z3.And(O1(o) >= 0, O1(o) <= n, O2(o) >= 0, O2(o) <= n, nd(o) >= 0))
            return (O1(o), O2(o))

        def drives(o):
            o = to_int(o)
            outs(o)

            def get(q):
                q = to_int(q)
                eng.fact_once(('p', o.sexpr(), q.sexpr()), z3.And(P1(o, q) >= 0, P1(o, q) <= n, P2(o, q) >= 0, P2(o, q) <= n))
                return (P1(o, q), P2(o, q))
            return VList(eng, None, SymSeq(nd(o), get, 'drive'))

        def args(o, v, tm):
            """the device sees the voltages across its own driving ports"""
            o = to_int(o)
            v = it.force(v)
            eng.prove(to_int(it.bi_len([v], {})) == nd(o), '_update_J_and_Tx.one_voltage_per_driving_port')
            with eng.scope():
                q = z3.Int(eng.fresh('port'))
                inr = z3.And(q >= 0, q < nd(o))
                drives(o).seq.get(q)
                eng.prove(z3.Implies(inr, to_real(it.as_seq(v).get(q)) == V(P1(o, q)) - V(P2(o, q))),
                          '_update_J_and_Tx.voltages_across_the_driving_ports')
            eng.prove(tm is t, '_update_J_and_Tx.at_the_given_time')
            return o

        def i_(it_, a, k):
            names = ('op_index', 'ports_v', 'time')
            g = dict(zip(names, a))
            g.update(k)
            return cur(args(g['op_index'], g['ports_v'], g.get('time')))

        def g_(it_, a, k):
            names = ('op_index', 'ports_v', 'port_index', 'time')
            g = dict(zip(names, a))
            g.update(k)
            return con(args(g['op_index'], g['ports_v'], g.get('time')), to_int(g['port_index']))
        el = Obj(eng, ExtClass(object), {
            'get_output_ports': Builtin('get_output_ports', lambda i, a, k: VList(eng, None, SymSeq(no, outs, 'out'))),
            'get_drive_ports': Builtin('get_drive_ports', lambda i, a, k: drives(a[0])),
            'i': Builtin('i', i_), 'g': Builtin('g', g_)}, tag='device')
        J0, T0 = uf('J0', Z, Z, R), uf('T0', Z, R)
        J = it.arr((n, n), lambda i, j: J0(to_int(i), to_int(j)))
        T = it.arr((n, 1), lambda i, j: T0(to_int(i)))
        try:
            it.call(it.qual(D + '_update_J_and_Tx'), [J, T, x, el, t], {})
        except PyExc as e:
            eng.prove(False, '_update_J_and_Tx.no_exception', str(e))
            return
        i, j, o, q = z3.Int('i'), z3.Int('j'), z3.Int('o'), z3.Int('q')
        eng.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
        row = lambda a, b: dl(i + 1, a) - dl(i + 1, b)
        ST = it.fold_register('T_spec', o, [i], cur(o) * row(O1(o), O2(o)), no, match=False)
        inr = [lambda oo: (outs(oo), z3.BoolVal(True))[1]]
        it.prove_fold_zero(to_real(T.fn(i, 0)) - T0(i) - it.fold_at(ST, no, [i]), no, '_update_J_and_Tx.residual', hyps=inr)
        inner = it.fold_register('J_in', q, [o, i, j], con(o, q) * row(O1(o), O2(o)) * (dl(j + 1, P1(o, q)) - dl(j + 1, P2(o, q))),
                                 nd(o), match=False)
        SJ = it.fold_register('J_spec', o, [i, j], it.fold_at(inner, nd(o), [o, i, j]), no, match=False)
        it.prove_fold_zero(to_real(J.fn(i, j)) - J0(i, j) - it.fold_at(SJ, no, [i, j]), no, '_update_J_and_Tx.jacobian', hyps=inr,
                          cases=[('p%d m%d' % (a, b), lambda kk, a=a, b=b: z3.And((O1(kk) == 0) == (a == 0), (O2(kk) == 0) == (b == 0)))
                                 for a in (0, 1) for b in (0, 1)])
        eng.prove(x.fn(i, 0).eq(X(i)) if is_z3(x.fn(i, 0)) else False, '_update_J_and_Tx.point_not_modified')
        eng.cover('_update_J_and_Tx.returns')
    eng.explore(driver)


def stamped(kind, part=None):
    """part: one of the cases that together are all (run in parallel)"""
    def proof(eng):
        it = new_interp(eng)
        it.mod_overrides['ahkab.options.gmin'] = z3.Real('gmin')

        def driver():
            n = z3.Int('n')
            t = z3.Real('t')
            names = ('nd', 'ng', 'ns', 'nb') if kind == 'mosq' else ('n1', 'n2')
            nodes = [z3.Int(x) for x in names]
            eng.assume(z3.And(n >= 0, *[z3.And(k >= 0, k <= n) for k in nodes]))
            X = uf('x', Z, R)
            x = it.arr((n, 1), lambda i, j: X(to_int(i)))
            V = lambda k: z3.If(k == 0, z3.RealVal(0), X(k - 1))
            model = Obj(eng, ExtClass(object), {'name': 'mod'}, tag='model')
            seen = []

            def device(nm, pos):
                """the value a model function returns depends on its arguments only
                (memoised functions included: C21)"""
                def call(it_, a, k):
                    vs = it.force(a[pos])
                    vs = [to_real(it.force(q)) for q in it.as_seq(vs)] if isinstance(vs, (tuple, VList)) else [to_real(vs)]
                    return uf('dev_' + nm, *([R] * (len(vs) + 1)))(*vs)
                return Builtin(nm, call)
            if kind == 'mosq':
                NP = z3.Int('npmos')
                eng.assume(z3.Or(NP == 1, NP == -1))
                model = Obj(eng, it.qual('ahkab.mosq.mosq_mos_model'), {}, tag='model')
                model.fields.update(NPMOS=z3.ToReal(NP), VTO=z3.Real('vto'), T1=PERM(it), T2=PERM(it), name='mod')
                for f_, q in (('get_ids', 2), ('get_gmd', 2), ('get_gm', 2), ('get_gmb', 2)):
                    model.fields[f_] = device(f_, q)
                model.fields['device_check'] = Builtin('device_check', lambda i, a, k: (True, ''))
                el = it.call(it.qual('ahkab.mosq.mosq_device'), ['M1', nodes[0], nodes[1], nodes[2], nodes[3],
                                                                 z3.Real('W'), z3.Real('L'), model], {})
                ports = [(0, 2), (1, 2), (3, 2)]
            else:
                model.fields['get_i'] = device('get_i', 1)
                model.fields['get_gm'] = device('get_gm', 2)
                q = 'ahkab.diode.diode' if kind == 'diode' else 'ahkab.components.TunnelJunction.TunnelJunction'
                el = it.call(it.qual(q), ['D1', nodes[0], nodes[1], model], {})
                ports = [(0, 1)]
            J0, T0 = uf('J0', Z, Z, R), uf('T0', Z, R)
            J = it.arr((n, n), lambda i, j: J0(to_int(i), to_int(j)))
            T = it.arr((n, 1), lambda i, j: T0(to_int(i)))
            if part is not None:
                eng.assume((nodes[0] == nodes[2]) == part[0])
                eng.assume((nodes[1] == nodes[2]) == part[1])
                eng.assume((nodes[1] == nodes[0]) == part[2])
            pv = [V(nodes[a]) - V(nodes[b]) for a, b in ports]
            if part is not None:
                eng.assume((pv[0] * z3.ToReal(NP) < 0) == part[3])
            try:
                it.call(it.qual(D + '_update_J_and_Tx'), [J, T, x, el, t], {})
                # the complete stamps, at the voltages across the driving ports
                gi, g = it.unpack(it.call(it.getattr(el, 'gstamp'), [VList(eng, list(pv)), t], {'reduced': False}), 2)
                ii, cur = it.unpack(it.call(it.getattr(el, 'istamp'), [VList(eng, list(pv)), t], {'reduced': False}), 2)
            except PyExc as e:
                eng.prove(False, kind + '.no_exception', str(e))
                return
            i, j = z3.Int('i'), z3.Int('j')
            eng.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
            m = len(nodes)
            at = lambda a, p: dl(p + 1, nodes[a])
            out = (0, 2) if kind == 'mosq' else (0, 1)
            c0, c1 = to_real(cur.fn(0)), to_real(cur.fn(1))
            eng.prove(c0 + c1 == 0, kind + '.current_entering_leaves')
            eng.prove(to_real(T.fn(i, 0)) - T0(i) == c0 * (at(out[0], i) - at(out[1], i)), kind + '.residual')
            want = z3.RealVal(0)
            for a in range(m):
                for b in range(m):
                    want = want + to_real(g.fn(a, b)) * at(a, i) * at(b, j)
            eng.prove(to_real(J.fn(i, j)) - J0(i, j) == want, kind + '.jacobian')
            eng.cover(kind + '.returns')
        eng.explore(driver)
    return proof


def PERM(it):
    def fn(i, j):
        i, j = to_int(i), to_int(j)
        one = z3.Or(z3.And(i == 0, j == 2), z3.And(i == 1, j == 1), z3.And(i == 2, j == 0), z3.And(i == 3, j == 3))
        return z3.simplify(z3.If(one, z3.RealVal(1), z3.RealVal(0)))
    return it.arr((4, 4), fn)


PROOFS = {
    '_update_J_and_Tx': {'fn': update, 'timeout': 200, 'functions': ['dc_analysis._update_J_and_Tx']},
    'stamps.diode': {'fn': stamped('diode'), 'timeout': 200, 'functions': [
        'dc_analysis._update_J_and_Tx', 'diode.diode.istamp', 'diode.diode.gstamp', 'diode.diode.get_drive_ports']},
    'stamps.junction': {'fn': stamped('junction'), 'timeout': 200, 'functions': [
        'dc_analysis._update_J_and_Tx', 'TunnelJunction.TunnelJunction.istamp', 'TunnelJunction.TunnelJunction.gstamp']},
}

# drain = source, gate = source, gate = drain: every consistent combination
for _p in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
    for _v in ((0,) if _p[0] else (0, 1)):
        PROOFS['stamps.mosq[%d%d%d,%s]' % (_p + ('vds<0' if _v else 'vds>=0',))] = {
            'fn': stamped('mosq', [bool(q) for q in _p] + [bool(_v)]), 'timeout': 300,
            'functions': ['dc_analysis._update_J_and_Tx', 'mosq.mosq_device.istamp', 'mosq.mosq_device.gstamp',
                          'mosq.mosq_mos_model.get_voltages']}
