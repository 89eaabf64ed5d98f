from circ import *
import math
MODELS = ['.model diode dmod is=1e-14 n=1.1', '.model ekv ech type=n vto=.4 kp=1e-4', '.model mosq mch type=p vto=-.6 kp=4e-4', '.model sw smod vt=.5 ron=10 roff=1e5']
FUN = {'sin': ('vo va freq td theta phase'.split(), 3), 'pulse': ('v1 v2 td tr tf pw per'.split(), 7), 'exp': ('v1 v2 td1 tau1 td2 tau2'.split(), 4),
       'sffm': ('vo va fc mdi fs td'.split(), 5), 'am': ('sa oc fm fc td'.split(), 4)}
DEFAULT = {'td': 0., 'theta': 0., 'phase': 0., 'td1': 0., 'td2': float('inf'), 'tau2': float('inf')}
SUF = [('', 1), ('k', 1e3), ('meg', 1e6), ('m', 1e-3), ('u', 1e-6), ('n', 1e-9), ('p', 1e-12)]


def num(g, pos=False):
    """text and value"""
    s, k = g.choice(SUF)
    m = g.choice(['1', '2.5', '.75', '33', '4e1', '1.5e-1'])
    sg = '' if pos else g.choice(['', '', '-'])
    return sg + m + s, float(sg + m) * k


def main():
    r = R('element lines of every type with random identifiers, nodes, values, options, control terminals and time functions, '
          'written with random case, blanks, comments and continuation lines; malformed variants of them; distinct by text')
    NPE = r.get('netlist_parser.NetlistParseError')
    comp = r.get('components')

    def elem(g, ids, nodes):
        """(tokens, expected) of one well formed element"""
        T = g.choice('RCLVIEFGHDMSK')
        nd = lambda k: [g.choice(nodes) for _ in range(k)]
        i = T + g.choice(['1', 'x', 'AB_c', '22', 'load']) + str(len(ids))
        if T in 'RCL':
            n, (t, v) = nd(2), num(g, True)
            tok, e = [i] + n + [t], {'n': n, 'value': v}
            if T in 'CL':
                e['ic'] = None
                if g.random() < .4:
                    t, e['ic'] = num(g)
                    tok.append('ic=' + t)
        elif T in 'EG':
            n, (t, v) = nd(4), num(g)
            tok, e = [i] + n + [t], {'n': n, 'alpha': v}
        elif T in 'FH':
            n, (t, v) = nd(2), num(g)
            src = g.choice(['V1', 'vxx'])
            tok, e = [i] + n + [src, t], {'n': n, 'alpha': v, 'source_id': src.lower()}
        elif T == 'D':
            n = nd(2)
            tok, e = [i] + n + ['dmod'], {'n': n, 'model': 'dmod', 'ic': None, 'off': False, 'area': 1., 'T': None}
            opts = []
            if g.random() < .5:
                t, e['area'] = num(g, True)
                opts.append('area=' + t)
            if g.random() < .3:
                t, e['ic'] = num(g)
                opts.append('ic=' + t)
            elif g.random() < .5:
                t, e['off'] = g.choice([('off', True), ('off=1', True), ('off=yes', True), ('off=no', False), ('off=0', False)])
                opts.append(t)
                if e['off']:
                    e['ic'] = 0
            if g.random() < .3:
                e['T'] = 310.
                opts.append('t=310')
            g.shuffle(opts)
            tok += opts
        elif T == 'M':
            n = nd(4)
            m = g.choice(['ech', 'mch'])
            w, l = g.choice(['10u', '5u', '1e-5']), g.choice(['1u', '2u'])
            opts = ['w=' + w, 'l=' + l]
            e = {'n': n, 'model': m, 'W': {'10u': 1e-5, '5u': 5e-6, '1e-5': 1e-5}[w], 'L': {'1u': 1e-6, '2u': 2e-6}[l], 'M': 1, 'N': 1}
            for o in 'MN':
                if g.random() < .4:
                    e[o] = g.choice([2, 3])
                    opts.append('%s=%d' % (o, e[o]))
            g.shuffle(opts)
            tok = [i] + n + [m] + opts
        elif T == 'S':
            n = nd(4)
            tok, e = [i] + n + ['smod'], {'n': n, 'model': 'smod'}
        elif T == 'K':
            if len(ids.get('L', [])) < 2:
                return None
            a, b = g.sample(ids['L'], 2)
            tok, e = [i, a, b, g.choice(['%s', 'k=%s', 'K=%s']) % '.4'], {'K': .4, 'L1': a.lower(), 'L2': b.lower()}
        else:
            n = nd(2)
            e = {'n': n, 'dc': None, 'ac': None, 'fun': None}
            q = T.lower()
            parts = []
            if g.random() < .7:
                t, e['dc'] = num(g)
                parts.append((['type=%sdc' % q] if g.random() < .7 else []) + ['%sdc=%s' % (q, t)])
            if g.random() < .5:
                t, e['ac'] = num(g)
                parts.append((['type=%sac' % q] if g.random() < .7 else []) + ['%sac=%s' % (q, t)])
            if e['dc'] is None or g.random() < .6:
                f = g.choice(sorted(FUN))
                lab, need = FUN[f]
                vals = [num(g, True) for _ in lab]
                have = list(range(len(lab)))
                if f == 'exp':
                    cnt = g.choice([4, 6])
                else:
                    cnt = g.randint(need, len(lab))
                have = have[:cnt]
                named = g.random() < .5
                if named and f in ('exp', 'pulse') and g.random() < .4:
                    have.remove(2)
                ft = [('%s=%s' % (lab[k], vals[k][0]) if named else vals[k][0]) for k in have]
                if named:
                    g.shuffle(ft)
                elif g.random() < .3:
                    ft[-1] = '%s=%s' % (lab[have[-1]], vals[have[-1]][0])
                e['fun'] = (f, dict((lab[k], vals[k][1]) if k in have else (lab[k], DEFAULT[lab[k]]) for k in range(len(lab))))
                parts.append(['type=' + f] + ft)
            if g.random() < .4:
                g.shuffle(parts)
            tok = [i] + n + sum(parts, [])
        e['T'] = T if 'T' not in e else e['T']
        return tok, dict(e, type=T, id=i.lower())

    def layout(g, tok, plain=False):
        """lines of the netlist for these tokens"""
        if plain:
            return [' '.join(tok)]
        rc = lambda s: g.choice([s, s.upper(), s.lower(), ''.join(g.choice([c.upper(), c.lower()]) for c in s)])
        out, cur = [], g.choice(['', '', ' ', '\t']) + rc(tok[0])
        for t in tok[1:]:
            if g.random() < .12:
                out.append(cur + g.choice(['', ' ']))
                cur = '+' + g.choice(['', ' ', '  ']) + rc(t)
            else:
                cur += g.choice([' ', ' ', '  ', '\t']) + rc(t)
        if g.random() < .25:
            cur += ' ' + g.choice(['* comment', '*c', '* a=3 b c d e f g h', '* type=sin'])
        out.append(cur)
        if g.random() < .2:
            out.append(g.choice(['', '   ', '* a comment line', '*r9 a b 1']))
        return out

    def netlists():
        g = r.rng('good')
        for k in range(r.count(1500, 15000)):
            nodes = names(g, g.randint(2, 5))
            nodes = [n.lower() for n in nodes]
            ids, els = {}, []
            for i in range(g.randint(1, 7)):
                x = elem(g, dict((t, v) for t, v in ids.items()), nodes)
                if x is None:
                    continue
                # identifiers are unique: number them
                tok, e = x
                tok[0] += 'q%d' % i
                e['id'] = tok[0].lower()
                ids.setdefault(e['type'], []).append(tok[0])
                els.append((tok, e))
            lines = []
            for tok, e in els:
                lines += layout(g, tok)
            mo = list(MODELS)
            for m in mo:
                lines.insert(g.choice([0, len(lines)]), m)
            if g.random() < .5:
                lines.append(g.choice(['.end', '.END']))
            yield lines, [e for _, e in els]

    CLS = {'R': 'Resistor', 'C': 'Capacitor', 'L': 'Inductor', 'K': 'InductorCoupling', 'V': 'VSource', 'I': 'ISource', 'E': 'EVSource',
           'G': 'GISource', 'F': 'FISource', 'H': 'HVSource', 'D': 'diode', 'S': 'switch_device'}

    def same(e, el, circ, key='elem:'):
        T = e['type']
        cls = CLS.get(T) or {'ech': 'ekv_device', 'mch': 'mosq_device'}[e['model']]
        r.need(type(el).__name__ == cls, key + 'type', lambda: 'got a %s for %r' % (type(el).__name__, e))
        r.need(el.part_id == e['id'], key + 'id', lambda: 'identifier %r for %r' % (el.part_id, e))
        if 'n' in e:
            if T == 'M':
                got = [el.n1, el.ng, el.n2, el.nb]
            elif T in 'EGS':
                got = [el.n1, el.n2, el.sn1, el.sn2]
            else:
                got = [el.n1, el.n2]
            got = [circ.int_node_to_ext(n) for n in got]
            r.need(got == e['n'], key + 'nodes', lambda: 'nodes %r, written %r: %r' % (got, e['n'], e))
        eq = lambda a, b: (a is None) == (b is None) and (a is None or abs(a - b) <= 1e-12 * abs(b))
        for k in ('value', 'ic', 'alpha', 'K'):
            if k in e:
                r.need(eq(getattr(el, k), e[k]), key + k, lambda: '%s is %r, written %r: %r' % (k, getattr(el, k), e[k], e))
        for k in ('source_id', 'L1', 'L2', 'off'):
            if k in e:
                r.need(getattr(el, k) == e[k], key + k, lambda: '%s is %r, written %r: %r' % (k, getattr(el, k), e[k], e))
        if T == 'K':
            Ls = dict((x.part_id, x) for x in circ)
            r.need(eq(el.M, e['K'] * math.sqrt(Ls[e['L1']].value * Ls[e['L2']].value)), key + 'M', lambda: 'mutual inductance %r: %r' % (el.M, e))
            for x in circ:
                if type(x).__name__ == 'Inductor':
                    r.need(any(d is el for d in x.coupling_devices) == (x.part_id in (e['L1'], e['L2'])), key + 'coupled', lambda: 'coupling of %s: %r' % (x.part_id, e))
        if T == 'D':
            r.need(eq(el.device.AREA, e['area']), key + 'area', lambda: 'area %r: %r' % (el.device.AREA, e))
            if e['T'] not in (None, 'D'):
                r.need(eq(el.device.T, e['T']), key + 'temp', lambda: 'temperature %r: %r' % (el.device.T, e))
            r.need(el.model is circ.models['dmod'], key + 'model', 'diode model')
        if T == 'S':
            r.need(el.model is circ.models['smod'], key + 'model', 'switch model')
        if T == 'M':
            m = el.ekv_model if e['model'] == 'ech' else el.mosq_model
            r.need(m is circ.models[e['model']], key + 'model', 'MOS model')
            for k in 'WLMN':
                r.need(eq(getattr(el.device, k), e[k]), key + k, lambda: '%s is %r: %r' % (k, getattr(el.device, k), e))
        if T in 'VI':
            r.need(eq(el.dc_value, e['dc']), key + 'dc', lambda: 'dc %r: %r' % (el.dc_value, e))
            ac = None if e['ac'] is None else abs(e['ac'])
            r.need(eq(el.abs_ac, ac), key + 'ac', lambda: 'ac %r: %r' % (el.abs_ac, e))
            if ac is not None:
                r.need(eq(el.arg_ac, 0. if e['ac'] > 0 else math.pi), key + 'ac', lambda: 'ac phase %r: %r' % (el.arg_ac, e))
            r.need(bool(el.is_timedependent) == (e['fun'] is not None), key + 'timedep', lambda: 'time dependent: %r: %r' % (el.is_timedependent, e))
            if e['fun']:
                f, p = e['fun']
                p = dict(p)
                if 'phase' in p:
                    p['phi'] = p.pop('phase')
                ref = getattr(ahkab.time_functions, f)(**p)
                r.need(type(el._time_function).__name__ == f, key + 'fun', lambda: 'waveform %r: %r' % (type(el._time_function).__name__, e))
                for k in p:
                    r.need(eq(getattr(el._time_function, k), getattr(ref, k)) or getattr(ref, k) == getattr(el._time_function, k), key + 'fun',
                           lambda: 'waveform parameter %s is %r: %r' % (k, getattr(el._time_function, k), e))

    def good(case):
        lines, exp = case
        circ = parse(lines, NPE)
        r.need(circ is not None, 'elem:rejected', 'well formed netlist rejected')
        r.need(len(circ) == len(exp), 'elem:count', lambda: '%d elements for %d lines' % (len(circ), len(exp)))
        for e, el in zip(exp, list(circ)):
            same(e, el, circ)

    def bads():
        g = r.rng('bad')
        fixed = ['r1 a', 'r1 a b', 'r1 a b 0', 'r1 a b abc', 'r1 a b 1k junk', 'r1 a b 1kk', 'c1 a b', 'c1 a b x', 'c1 a b 1u foo=1', 'c1 a b 1u ic=x',
                 'c1 a b 1u ic=1 junk', 'l1 a b', 'l1 a b 1u foo=2', 'l1 a b 1u ic=1 junk', 'l1 a b 1u junk junk2', 'k1 la lb', 'k1 la zz .5', 'k1 la lb .5 junk',
                 'k1 la lb q=.5', 'k1 la la .5', 'k1 la lb k=x', 'v1 a b', 'v1 a', 'v1 a b 5', 'v1 a b vdc=x', 'v1 a b type=foo', 'v1 a b idc=1', 'v1 a b type=vac vac=1',
                 'v1 a b type=sin 1 2', 'v1 a b type=sin 1 2 x', 'v1 a b type=sin vo=0 va=1 freq=abc', 'v1 a b type=sin vo=0 va=1 freq=1k bar=2',
                 'v1 a b type=sin 0 1 1k type=exp 0 1 2 3', 'v1 a b type=pulse 0 1 2 3', 'v1 a b type=sin vo=0 vo=1 va=1 freq=1k', 'v1 a b vdc=1 junk',
                 'i1 a b', 'i1 a b type=vdc vdc=1', 'i1 a b idc=', 'i1 a b type=sffm 1 2 3', 'i1 a b type=am 1 2', 'i1 a b type=iac iac=1', 'i1 a b idc=1 junk',
                 'e1 a b c 5', 'e1 a b c d', 'e1 a b c d x', 'e1 a b c d 5 junk', 'g1 a b c 5', 'g1 a b c d x', 'g1 a b c d 5 junk', 'f1 a b 5', 'f1 a b v1 x',
                 'f1 a b v1 5 junk', 'h1 a b 5', 'h1 a b v1 x', 'h1 a b v1 5 junk', 'd1 a b', 'd1 a b nomod', 'd1 a b dmod foo=1', 'd1 a b dmod area=x', 'd1 a b mch',
                 'd1 a b dmod off=perhaps', 'm1 a b c d mch', 'm1 a b c d mch w=1u', 'm1 a b c d mch l=1u', 'm1 a b c d nomod w=1u l=1u', 'm1 a b c d dmod w=1u l=1u',
                 'm1 a b c d mch w=1u l=x', 'm1 a b c d mch w=1u l=1u z=3', 's1 a b c smod', 's1 a b c d nomod', 's1 a b c d dmod', 's1 a b c d smod junk',
                 'q1 a b c 1', '+ a b c', 'z', '=', 'x1', 'x1 name=nosub', 'y1 a b', '1r a b 5', 'b1 a b 1', 'r1 a b =5', 'r1 a b value=5', 'r1 a b 5=', 'e1 a b c d =1']
        pre = ['la p 0 1u', 'lb q 0 2u', 'v1 s 0 vdc=1']
        for t in fixed:
            for f in (lambda s: s, str.upper, lambda s: s.replace(' ', '   '), lambda s: s.replace(' ', '\n+ ')):
                yield MODELS + pre[:3] + ['rr a b 1k', f(t), 'r2 a 0 5'], t
        # a number of a well formed line replaced by text that is no number, or a token dropped
        for k in range(r.count(600, 6000)):
            nodes = names(g, 4)
            x = elem(g, {}, [n.lower() for n in nodes])
            if x is None:
                continue
            tok, e = x
            import re
            if e['type'] in 'VIDM' and '=' not in ''.join(tok):
                continue
            cand = [j for j in range(1, len(tok)) if '=' in tok[j] and not tok[j].startswith(('type', 'off'))]
            if e['type'] in 'RCLEGFH':
                cand.append({'R': 3, 'C': 3, 'L': 3, 'E': 5, 'G': 5, 'F': 4, 'H': 4}[e['type']])
            if not cand:
                continue
            j = g.choice(cand)
            w = g.choice(['1x', 'q', '1..2', '--1', '1kk', '$'])
            tok[j] = tok[j].split('=')[0] + '=' + w if '=' in tok[j] else w
            yield MODELS + [' '.join(tok), 'r2 a 0 5'], ' '.join(tok)

    def bad(case):
        lines, t = case
        circ = parse(lines, NPE)
        r.need(circ is None, 'elem:accepted', lambda: 'malformed line %r accepted: %s' % (t, [str(type(x).__name__) + ' ' + x.part_id for x in circ]))

    r.section('lines', netlists(), good)
    r.section('malformed', bads(), bad)
    r.done()


if __name__ == '__main__':
    main()
