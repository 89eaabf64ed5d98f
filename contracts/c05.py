"""C05: reported conductances are the derivatives of the reported currents.

The device code is executed symbolically; on every path the current is a term
in the port voltages, which is differentiated term by term (sums, products,
quotients, exp, sqrt, tanh) and compared with the conductance the same device
reports at the same bias, as an identity of rational functions in the
parameters, the voltages and the transcendental sub-terms."""
import z3
from pyvc.ratfun import prove_identity, diff, no_ite, sign
from .model import *

MOS = 'ahkab.mosq.'


def reals(eng, names, positive=''):
    out = dict((x, z3.Real(x)) for x in names.split())
    for x in positive.split():
        eng.assume(out[x] > 0)
    return out


def mos_model(it, p, polarity):
    mod = Obj(it.eng, it.qual(MOS + 'mosq_mos_model'), {}, tag='model')
    for x in ('VTO', 'KP', 'LAMBDA', 'GAMMA', 'PHI', 'AVT', 'AKP'):
        mod.fields[x] = p[x]
    mod.fields.update(NPMOS=polarity, name='m', T1=swap(it), T2=swap(it))
    return mod


def mos_params(eng):
    p = reals(eng, 'VTO KP LAMBDA GAMMA PHI AVT AKP W L M N m0 m1 vds vgs vbs', 'KP GAMMA PHI W L M N')
    eng.assume(z3.And(p['LAMBDA'] >= 0, p['AVT'] >= 0, p['AKP'] >= 0))
    return p


def mosq_model(polarity, mc):
    """the square law: every region, any body bias, with and without mismatch"""
    def proof(eng):
        it = new_interp(eng)
        iea = z3.Real('iea')
        it.mod_overrides['ahkab.options.iea'] = iea

        def driver():
            p = mos_params(eng)
            eng.assume(iea > 0)
            vds, vgs, vbs = p['vds'], p['vgs'], p['vbs']
            eng.assume(vds >= 0)
            mod = mos_model(it, p, polarity)
            dev = Obj(eng, ExtClass(object), {'W': p['W'], 'L': p['L'], 'M': p['M'], 'N': p['N'], 'part_id': 'M1',
                                              'mckey': (p['m0'], p['m1']) if mc else None})
            v = (vds, vgs, vbs)
            ask = lambda nm: z3.simplify(to_real(it.force(it.call(it.getattr(mod, nm), [mod, dev, v], {}))))
            try:
                VT = to_real(it.call(it.getattr(mod, 'get_VT'), [v, dev], {}))
                off = eng.branch(vgs < VT)
                # (the body effect has a kink where the bulk junction charge vanishes)
                eng.assume(-vbs + 2 * p['PHI'] != 0)
                eng.branch(-vbs + 2 * p['PHI'] > 0)
                i, gd, gg, gb = [ask(x) for x in ('get_ids', 'get_gmd', 'get_gm', 'get_gmb')]
            except PyExc as e:
                eng.prove(False, 'mosq.no_exception', str(e))
                return
            i = no_ite(eng, i)
            d = lambda x: z3.simplify(polarity * diff(i, x))
            if off:
                eng.cover('mosq.off')
                if not mc:
                    # (a mismatched transistor scales the minimum conductance)
                    prove_identity(eng, gd, d(vds), 'mosq.off.output_conductance')
                    prove_identity(eng, gg, d(vgs), 'mosq.off.transconductance')
                eng.prove(z3.Implies(z3.And(vds == 0, vgs == 0), i == 0), 'mosq.off.zero_bias_zero_current')
                eng.prove(gb == 0, 'mosq.off.no_bulk_conductance')
                return
            eng.cover('mosq.on')
            prove_identity(eng, gd, d(vds), 'mosq.on.output_conductance')
            prove_identity(eng, gg, d(vgs), 'mosq.on.transconductance')
            prove_identity(eng, gb, d(vbs), 'mosq.on.bulk_transconductance')
            eng.prove(z3.Implies(z3.And(vds == 0, vgs > VT, p['LAMBDA'] * (vgs - VT) < 2), i == 0),
                      'mosq.on.zero_bias_zero_current')
        eng.explore(driver)
    return proof


def mosq_device(polarity):
    """from the forward transistor to the terminals: for any model whose reported
    conductances are the derivatives of its current"""
    def proof(eng):
        it = new_interp(eng)
        gmin = z3.Real('gmin')
        it.mod_overrides['ahkab.options.gmin'] = gmin

        def driver():
            p = mos_params(eng)
            eng.assume(gmin > 0)
            mod = mos_model(it, p, polarity)
            F = dict((x, uf(x, R, R, R, R)) for x in ('get_ids', 'get_gmd', 'get_gm', 'get_gmb'))
            for x in F:
                mod.fields[x] = Builtin(x, lambda i, a, k, x=x: F[x](*[to_real(i.force(q)) for q in i.as_seq(a[2])]))
            el = it.call(it.qual(MOS + 'mosq_device'), ['M1', 1, 2, 3, 4, p['W'], p['L'], mod], {})
            vs = [p['vds'], p['vgs'], p['vbs']]
            try:
                _, cur = it.unpack(it.call(it.getattr(el, 'istamp'), [VList(eng, list(vs))], {'reduced': False}), 2)
                _, g = it.unpack(it.call(it.getattr(el, 'gstamp'), [VList(eng, list(vs))], {'reduced': False}), 2)
            except PyExc as e:
                eng.prove(False, 'mosq_device.no_exception', str(e))
                return
            i = z3.simplify(to_real(cur.fn(0)))
            st = lambda a, b: to_real(g.fn(a, b))

            def partials(args, e):
                """the reported forward conductances, exact zeros replaced by the minimum
                conductance; the model current carries the polarity"""
                a = [F[x](*args) for x in ('get_gmd', 'get_gm', 'get_gmb')]
                return [polarity * z3.If(x == 0, s * gmin, x) for x, s in zip(a, (2, 2, -2))]
            d = lambda x: diff(i, x, {'get_ids': partials})
            eng.cover('mosq_device.returns')
            # terminals: drain gate source bulk
            for k, (b, x) in enumerate(((0, 'vds'), (1, 'vgs'), (3, 'vbs'))):
                prove_identity(eng, st(0, b), d(p[x]), 'mosq_device.drain_current_over_%s' % x)
            for b in range(4):
                prove_identity(eng, st(0, b) + st(2, b), z3.RealVal(0), 'mosq_device.source_takes_what_drain_gives')
                eng.prove(z3.And(st(1, b) == 0, st(3, b) == 0), 'mosq_device.no_gate_or_bulk_current')
            for a in (0, 2):
                prove_identity(eng, st(a, 0) + st(a, 1) + st(a, 2) + st(a, 3), z3.RealVal(0),
                               'mosq_device.only_voltage_differences')
            eng.prove(to_real(cur.fn(0)) + to_real(cur.fn(1)) == 0, 'mosq_device.current_entering_leaves')
        eng.explore(driver)
    return proof


def swap(it):
    """the matrix exchanging drain and source"""
    def fn(i, j):
        i, j = to_int(i), to_int(j)
        one = z3.Or(z3.And(i == 0, j == 2), z3.And(i == 1, j == 1), z3.And(i == 2, j == 0), z3.And(i == 3, j == 3))
        return z3.simplify(z3.If(one, z3.RealVal(1), z3.RealVal(0)))
    return it.arr((4, 4), fn)


DIO = 'ahkab.diode.'


def diode(rs, ikf, bv):
    """junction in series with a resistance (rs), with or without high injection, with or without breakdown"""
    def proof(eng):
        it = new_interp(eng)
        gmin = z3.Real('gmin')
        it.mod_overrides['ahkab.options.gmin'] = gmin
        root = z3.Real('root')

        def solver(fails):
            def newton(it_, a, k):
                """contract of the library: a root of the function it is given, or RuntimeError"""
                eng.assumptions.add('scipy newton / brentq return a root of the function they are given (tolerance ideal), '
                                    'or newton raises RuntimeError')
                args = k.get('args', a[3] if len(a) > 3 else ())
                if fails and eng.decide(2, None, 'newton') == 1:
                    it_.raise_py(RuntimeError, 'no convergence')
                r = it_.call(a[0], [root] + list(it_.as_seq(args)), {})
                eng.assume(to_real(r) == 0)
                return root
            return newton
        it.user_hooks['ext:scipy.optimize.newton'] = Builtin('newton', solver(True))
        it.user_hooks['ext:scipy.optimize.brentq'] = Builtin('brentq', solver(False))

        def driver():
            p = reals(eng, 'IS N NBV ISR NR RS BV IKF VT AREA T v', 'IS N NBV NR VT AREA T')
            eng.assume(z3.And(p['ISR'] >= 0, gmin > 0))
            v = p['v']
            mod = Obj(eng, it.qual(DIO + 'diode_model'), {}, tag='model')
            mod.fields.update(IS=p['IS'], N=p['N'], NBV=p['NBV'], ISR=p['ISR'], NR=p['NR'], VT=p['VT'], T=p['T'], name='m')
            if rs:
                eng.assume(p['RS'] > 0)
            if ikf:
                eng.assume(p['IKF'] > 0)
            mod.fields['RS'] = p['RS'] if rs else 0
            mod.fields['IKF'] = p['IKF'] if ikf else float('inf')
            mod.fields['BV'] = p['BV'] if bv else float('inf')
            el = it.call(it.qual(DIO + 'diode'), ['D1', 1, 2, mod], {})
            dev = el.fields['device']
            dev.fields.update(AREA=p['AREA'], T=p['T'], last_vd=z3.Real('last_vd'))
            it.overrides.pop(DIO + 'diode_model.get_i', None)

            meant = []

            def junction(nm, nonneg):
                """_get_i and _get_gj are functions of the junction voltage; what they
                compute is put back where the derivative is taken"""
                key = DIO + 'diode_model.' + nm

                def oracle(it_, a, k):
                    o = it_.overrides.pop(key)
                    try:
                        r = z3.simplify(to_real(it_.call(it_.getattr(a[0], nm), list(a[1:]), k)))
                    finally:
                        it_.overrides[key] = o
                    G = uf('junction' + nm, R, R)(z3.simplify(to_real(it_.force(a[1]))))
                    if nonneg:
                        with eng.scope():
                            eng.prove(z3.BoolVal(True) if sign(eng, r) > 0 else r >= 0,
                                      'diode.junction_conductance_not_negative')
                        eng.assume(G >= 0)
                    meant.append((G, r))
                    return G
                it.overrides[key] = oracle
            junction('_get_i', False)
            junction('_get_gj', True)

            def at_bias(it_, a):
                eng.prove(to_real(it_.force(a[1])) == v and a[2] is dev, 'diode.current_asked_at_the_same_bias')
                return root / p['RS']
            # junction exponents beyond the clamping limit are excluded
            vj = v - root if rs else v
            for nn in ('N', 'NR'):
                eng.assume(vj / (p[nn] * p['VT']) < 70)
            if bv:
                eng.assume(-(vj + p['BV']) / (p['NBV'] * p['VT']) < 70)
            try:
                i = z3.simplify(to_real(it.call(it.getattr(el, 'i'), [0, VList(eng, [v])], {})))
                if rs:
                    # contract of get_i: the resistance carries the current (obligation below)
                    eng.prove(i * p['RS'] == root, 'diode.series_resistance_carries_the_current')
                    it.overrides[DIO + 'diode_model.get_i'] = lambda it_, a, k: at_bias(it_, a)
                g = z3.simplify(to_real(it.call(it.getattr(el, 'g'), [0, VList(eng, [v]), 0], {})))
            except PyExc as e:
                eng.prove(False, 'diode.no_exception', str(e))
                return
            eng.cover('diode.returns')
            put = lambda e: z3.simplify(z3.substitute(e, *meant))
            i, g = put(i), put(g)
            if not rs:
                prove_identity(eng, g, diff(i, v), 'diode.conductance_is_the_derivative')
                if not bv:
                    eng.prove(z3.Implies(v == 0, i == 0), 'diode.zero_bias_zero_current')
                return
            # series resistance: the current is the junction current at the voltage
            # the resistance leaves, and by implicit differentiation
            # di/dv = J' / (1 + RS J')  with J' the junction derivative there
            J = diff(i, v)          # derivative of the junction current, the resistance voltage held
            prove_identity(eng, g * (p['RS'] * (J + gmin / 1000) + 1), J + gmin / 1000, 'diode.conductance_with_series_resistance')
        eng.explore(driver)
    return proof


def switch(eng):
    it = new_interp(eng)
    gmin = z3.Real('gmin')
    it.mod_overrides['ahkab.options.gmin'] = gmin
    q = 'ahkab.switch.'

    def driver():
        p = reals(eng, 'VT VH RON ROFF vo vin', 'RON ROFF')
        eng.assume(gmin > 0)
        mod = it.call(it.qual(q + 'vswitch_model'), ['m'], dict((x, p[x]) for x in ('VT', 'VH', 'RON', 'ROFF')))
        el = it.call(it.qual(q + 'switch_device'), [1, 2, 3, 4, mod], {})
        el.fields['device'].fields['is_on'] = z3.Bool('is_on')
        v = VList(eng, [p['vo'], p['vin']])
        try:
            # the switch may change state when it is first asked; asked again at the
            # same bias it stays (the derivative is that of the state it is in)
            it.call(it.getattr(el, 'i'), [0, v], {})
            i = z3.simplify(to_real(it.call(it.getattr(el, 'i'), [0, v], {})))
            g0 = z3.simplify(to_real(it.call(it.getattr(el, 'g'), [0, v, 0], {})))
            g1 = z3.simplify(to_real(it.call(it.getattr(el, 'g'), [0, v, 1], {})))
        except PyExc as e:
            eng.prove(False, 'switch.no_exception', str(e))
            return
        eng.cover('switch.returns')
        prove_identity(eng, g0, diff(no_ite(eng, i), p['vo']), 'switch.output_conductance')
        prove_identity(eng, g1 - gmin, diff(no_ite(eng, i), p['vin']), 'switch.control_transconductance')
        eng.prove(z3.Implies(p['vo'] == 0, i == 0), 'switch.zero_bias_zero_current')
    eng.explore(driver)


def tunnel(eng):
    it = new_interp(eng)
    q = 'ahkab.components.TunnelJunction.'

    def driver():
        p = reals(eng, 'PHI d v c_pi c_hbar c_q c_m', 'PHI d c_pi c_hbar c_q c_m')
        for nm, c in (('pi', 'c_pi'), ('hbar', 'c_hbar'), ('q', 'c_q'), ('eV', 'c_q'), ('m', 'c_m')):
            it.mod_overrides[q + nm] = p[c]
        mod = it.call(it.qual(q + 'TunnelJunctionModel'), ['m'], {'PHI_B': p['PHI']})
        el = it.call(it.qual(q + 'TunnelJunction'), ['T1', 1, 2, mod], {'d': p['d']})
        v = p['v']
        # the formula holds below the barrier (see the known finding for the rest)
        eng.assume(z3.And(v < p['PHI'], -v < p['PHI']))
        eng.assume(z3.And(p['PHI'] * p['c_q'] - p['c_q'] * v > 0, p['PHI'] * p['c_q'] + p['c_q'] * v > 0))
        try:
            i = z3.simplify(to_real(it.call(it.getattr(el, 'i'), [0, VList(eng, [v])], {})))
            g = z3.simplify(to_real(it.call(it.getattr(el, 'g'), [0, VList(eng, [v]), 0], {})))
        except PyExc as e:
            eng.prove(False, 'tunnel.no_exception', str(e))
            return
        eng.cover('tunnel.returns')
        prove_identity(eng, g, diff(i, v), 'tunnel.conductance_is_the_derivative')
        prove_identity(eng, z3.substitute(i, (v, z3.RealVal(0))), z3.RealVal(0), 'tunnel.zero_bias_zero_current')
    eng.explore(driver)


PROOFS = {}
for _p in (1, -1):
    PROOFS['mosq.device.%s' % 'np'[_p < 0]] = {'fn': mosq_device(_p), 'timeout': 200, 'functions': [
        'mosq.mosq_device.istamp', 'mosq.mosq_device.gstamp', 'mosq.mosq_mos_model.get_voltages']}
    for _m in (False, True):
        PROOFS['mosq.model.%s%s' % ('np'[_p < 0], '.mismatch' if _m else '')] = {
            'fn': mosq_model(_p, _m), 'timeout': 200, 'functions': [
                'mosq.mosq_mos_model.' + x for x in ('get_ids', 'get_gm', 'get_gmd', 'get_gmb', 'get_VT', '_get_gov', '_get_goff', 'get_svt_skp')]}
for _rs in (0, 1):
    for _k in (0, 1):
        for _b in (0, 1):
            PROOFS['diode.%s%s%s' % ('rs' if _rs else 'nors', '.ikf' if _k else '', '.bv' if _b else '')] = {
                'fn': diode(_rs, _k, _b), 'timeout': 200, 'functions': [
                    'diode.diode.i', 'diode.diode.g'] + ['diode.diode_model.' + x for x in (
                        'get_i', 'get_gm', '_get_i', '_get_gj', '_obj_irs', '_obj_irs_prime', '_safe_exp')]}
PROOFS['switch'] = {'fn': switch, 'timeout': 200, 'functions': [
    'switch.switch_device.i', 'switch.switch_device.g'] + ['switch.vswitch_model.' + x for x in (
        '__init__', '_get_V', '_set_status', '_update_status', 'get_i', 'get_go', 'get_gm')]}
PROOFS['tunnel'] = {'fn': tunnel, 'timeout': 200, 'functions': [
    'TunnelJunction.TunnelJunction.i', 'TunnelJunction.TunnelJunction.g', 'TunnelJunction.TunnelJunctionModel.get_i',
    'TunnelJunction.TunnelJunctionModel.get_gm']}
