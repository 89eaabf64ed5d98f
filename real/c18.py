from circ import *
MODELS = ['.model diode dmod is=1e-14 n=1.1', '.model mosq mch type=p vto=-.6 kp=4e-4', '.model sw smod vt=.5 ron=10 roff=1e5']


def main():
    r = R('hierarchies of subcircuits (up to 3 levels, inner nodes named like outer nodes and like ports, several ports on one node or on ground, inner '
          'controlling sources and couplings, instance before or after its definition) against the same circuit flattened by hand; malformed '
          'instances and declarations; distinct by text')
    NPE = r.get('netlist_parser.NetlistParseError')
    POOL = ['a', 'b', 'c', 'out', 'in', '1', '2', 'p1', 'mid']

    def body(g, ports, subs, depth):
        """elements of one body as templates"""
        nodes = list(dict.fromkeys(ports + [g.choice(POOL) for _ in range(2)])) + ['0']
        els, cnt = [], {}
        have = {'V': [], 'L': []}
        for i in range(g.randint(1, 6)):
            T = g.choice('RCLVIEGFHDMSKXX' if subs else 'RCLVIEGFHDMSK')
            cnt[T] = cnt.get(T, 0) + 1
            i = T.lower() + str(cnt[T])
            nd = lambda k: [g.choice(nodes) for _ in range(k)]
            v = '%g' % g.choice([1, 2.5, 1e3, 33, 1e-6])
            if T in 'RCL':
                els.append((T, i, nd(2), [v]))
            elif T in 'EG':
                els.append((T, i, nd(4), [v]))
            elif T in 'FH':
                if not have['V']:
                    continue
                els.append((T, i, nd(2), [('ref', g.choice(have['V'])), v]))
            elif T in 'VI':
                els.append((T, i, nd(2), ['%sdc=%s' % (T.lower(), v)]))
            elif T == 'D':
                els.append((T, i, nd(2), ['dmod']))
            elif T == 'M':
                els.append((T, i, nd(4), ['mch', 'w=1u', 'l=1u']))
            elif T == 'S':
                els.append((T, i, nd(4), ['smod']))
            elif T == 'K':
                if len(have['L']) < 2:
                    continue
                a, b = g.sample(have['L'], 2)
                els.append((T, i, [], [('ref', a), ('ref', b), '.3']))
            else:
                s = g.choice(subs)
                els.append((T, i, dict((p, g.choice(nodes)) for p in s['ports']), s))
                continue
            if T in have:
                have[T].append(i)
        return els

    def text(els, g):
        out = []
        for T, i, n, rest in els:
            if T == 'X':
                c = ['%s=%s' % q for q in n.items()]
                g.shuffle(c)
                c.insert(g.choice([0, len(c)]), 'name=' + rest['name'])
                out.append(' '.join([i] + c))
            else:
                out.append(' '.join([i] + n + [x[1] if isinstance(x, tuple) else x for x in rest]))
        return out

    def flatten(els, path, nmap, out):
        loc = {}

        def node(n):
            if n == '0':
                return '0'
            if n not in nmap:
                nmap[n] = '_'.join(['w'] + path + [n])
            return nmap[n]
        for T, i, n, rest in els:
            if T == 'X':
                flatten(rest['body'], path + [i], dict((p, node(q)) for p, q in n.items()), out)
            else:
                nid = i[0] + '_'.join(['z'] + path + [i])
                loc[i] = nid
                out.append(' '.join([nid] + [node(x) for x in n] + [loc[x[1]] if isinstance(x, tuple) else x for x in rest]))

    def cases():
        g = r.rng('hier')
        for k in range(r.count(1200, 12000)):
            subs = []
            for d in range(g.randint(1, 3)):
                ports = list(dict.fromkeys(g.choice(POOL) for _ in range(g.randint(1, 4))))
                s = {'name': g.choice(['amp', 'sub', 'x']) + str(d), 'ports': ports}
                s['body'] = body(g, ports, subs, d)
                subs.append(s)
            top = body(g, [g.choice(POOL) for _ in range(3)], subs, 9)
            if not any(e[0] == 'X' for e in top):
                s = subs[-1]
                for q in range(g.randint(1, 3)):
                    top.insert(g.randrange(len(top) + 1), ('X', 'xx%d' % q, dict((p, g.choice(POOL + ['0'])) for p in s['ports']), s))
            decl = []
            for s in subs:
                decl.append(['.subckt %s %s' % (s['name'], ' '.join(s['ports']))] + text(s['body'], g) + ['.ends'])
            g.shuffle(decl)
            tl = text(top, g)
            h = []
            if g.random() < .5:
                h = sum(decl, []) + MODELS + tl
            else:
                h = tl + MODELS + sum(decl, [])
            fl = []
            flatten(top, [], dict((n, n) for n in []), fl)
            yield h, fl

    def sig(c):
        pos = dict((e.part_id, k) for k, e in enumerate(c))
        out = []
        for e in c:
            s = [type(e).__name__]
            for a in ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb', 'value', 'alpha', 'dc_value', 'K', 'M', 'ic'):
                if hasattr(e, a):
                    s.append((a, getattr(e, a)))
            for a in ('source_id', 'L1', 'L2'):
                if hasattr(e, a):
                    s.append((a, pos.get(getattr(e, a), 'no element ' + str(getattr(e, a)))))
            if hasattr(e, 'coupling_devices'):
                s.append(sorted(pos.get(d.part_id, -1) for d in e.coupling_devices))
            if hasattr(e, 'device') and hasattr(e.device, 'W'):
                s.append((e.device.W, e.device.L))
            out.append(s)
        return out

    def case(cs):
        h, fl = cs
        a, b = parse(h, NPE), parse(MODELS + fl, NPE)
        if b is None:
            return
        r.need(a is not None, 'sub:rejected', 'well formed hierarchy rejected')
        sa, sb = sig(a), sig(b)
        r.need(len(sa) == len(sb), 'sub:count', lambda: '%d elements, %d expected' % (len(sa), len(sb)))
        for x, y, e in zip(sa, sb, a):
            r.need(x == y, 'sub:element', lambda: '%s is %r, flattened by hand %r' % (e.part_id, x, y))
        ids = [e.part_id.upper() for e in a]
        r.need(len(set(ids)) == len(ids), 'sub:id', lambda: 'identifiers are not unique: %r' % ids)
        for e, q in zip(a, b):
            r.need(e.part_id[:1].upper() == q.part_id[:1].upper(), 'sub:id', lambda: 'identifier %r does not start with the element letter' % e.part_id)
        na, nb = [sorted(k for k in c.nodes_dict if isinstance(k, int)) for c in (a, b)]
        r.need(na == nb, 'sub:nodes', lambda: 'node numbers %r, flattened by hand %r' % (na, nb))

    def solve(cs):
        h, fl = cs
        a, b = parse(h, NPE), parse(MODELS + fl, NPE)
        if b is None or 0 not in b.nodes_dict:
            return
        da = r.get('dc_analysis')
        ma = [np.asarray(x) for x in da.generate_mna_and_N(a)]
        mb = [np.asarray(x) for x in da.generate_mna_and_N(b)]
        for x, y in zip(ma, mb):
            r.need(x.shape == y.shape and np.array_equal(x, y), 'sub:equations', 'the equations differ from those of the circuit flattened by hand')
        t = r.get('transient')
        x, y = np.asarray(t.generate_D(a, ma[0].shape)), np.asarray(t.generate_D(b, mb[0].shape))
        r.need(np.array_equal(x, y), 'sub:equations', 'the dynamic equations differ from those of the circuit flattened by hand')

    def bads():
        S = ['.subckt s p q', 'r1 p q 1k', '.ends']
        T = ['v1 a 0 vdc=1']
        for ls, w in ((T + ['x1 name=s p=a q=0'], 'no such subcircuit'), (T + S + ['x1 p=a q=0'], 'no name'), (T + S + ['x1 name=s p=a'], 'port not connected'),
                      (T + S + ['x1 name=s p=a q=0 z=a'], 'unknown port'), (T + S + ['x1 name=t p=a q=0'], 'unknown name'), (T + S + ['x1'], 'empty'),
                      (T + S + S + ['x1 name=s p=a q=0'], 'redefined'), (T + S[:-1], 'no .ends'), (T + ['.ends'], '.ends alone'),
                      (T + S[:1] + S + ['.ends'], 'nested declaration'), (T + ['.subckt s p 0', 'r1 p 0 1', '.ends', 'x1 name=s p=a 0=a'], 'port 0'),
                      (T + S + ['x1 name=s a 0'], 'positional'), (T + ['.subckt s p q', 'r1 p q', '.ends', 'x1 name=s p=a q=0'], 'malformed body'),
                      (T + ['.subckt s p q', 'k1 l1 l2 .5', '.ends', 'l1 a 0 1', 'l2 a 0 1', 'x1 name=s p=a q=0'], 'coupling of outer inductors')):
            yield ls, w

    def bad(cs):
        ls, w = cs
        c = parse(ls, NPE)
        r.need(c is None, 'sub:accepted', lambda: '%s accepted: %s' % (w, [e.part_id for e in c]))
    r.section('flatten', cases(), case)
    r.section('equations', list(cases())[:r.count(300, 3000)], solve, priv=True)
    r.section('malformed', bads(), bad)
    r.done()


if __name__ == '__main__':
    main()
