from common import *


def main():
    r = R('random sequences of node additions, creations, internal nodes, lookups and element additions with new and known names; distinct by sequence')
    NAMES = ['0', 'a', 'A', '1', '2', '10', 'out', 'INT0', 'int', 'gnd', 'n_1', 'x.y', '00', '-1', ' ', 'é', '3', 'Vdd', 'a b']

    def cases(n):
        g = r.rng('seq')
        for i in range(n):
            ops = []
            for _ in range(g.randint(1, 25)):
                k = g.choice(['add', 'add', 'add', 'create', 'int', 'elem', 'look', 'bad'])
                nm = lambda: g.choice(NAMES) if g.random() < .7 else 'n%d' % g.randint(0, 30)
                ops.append((k, nm(), nm(), nm(), nm()))
            if g.random() < .7:
                ops.insert(0, ('add', '0', '', '', ''))
            yield ops

    def check(ops):
        c = ahkab.Circuit('t')
        num = {}
        ni = 0

        def model(x):
            if x not in num:
                num[x] = 0 if x == '0' else 1 + len([q for q in num if q != '0'])
            return num[x]
        for k, a, b, s1, s2 in ops:
            if k == 'add':
                known = a in num
                got = c.add_node(a)
                r.need(type(got) is int and got == model(a), 'node:add', lambda: 'add_node(%r) = %r, expected %r' % (a, got, num[a]))
            elif k == 'create':
                if a in num:
                    try:
                        c.create_node(a)
                        r.fail('node:create', 'created %r again' % a)
                    except ValueError:
                        pass
                else:
                    got = c.create_node(a)
                    model(a)
                    r.need(got == a, 'node:create', 'create_node returns %r' % got)
            elif k == 'int':
                want = 'INT%d' % ni
                if want in num:
                    try:
                        c.new_internal_node()
                        r.fail('node:internal', 'created %r again' % want)
                    except ValueError:
                        pass
                    ni += 1
                    continue
                got = c.new_internal_node()
                ni += 1
                r.need(got not in num, 'node:internal', 'internal node %r exists' % got)
                model(got)
            elif k == 'elem':
                t = (a, b, s1, s2)
                w = [model(x) for x in t]
                c.add_vccs('G%d' % len(c), a, b, s1, s2, 1.)
                e = c[-1]
                r.need([e.n1, e.n2, e.sn1, e.sn2] == w, 'node:elem', lambda: 'terminals %s expected %s' % ([e.n1, e.n2, e.sn1, e.sn2], w))
            elif k == 'bad':
                for x in (3, None, 1.5, ('a',), b'a'):
                    for f in (c.add_node, c.create_node):
                        try:
                            f(x)
                            r.fail('node:type', 'accepted %r' % (x,))
                        except TypeError:
                            r.n += 1
            names = sorted(num, key=num.get)
            r.need(c.get_nodes_number() == len(num), 'node:count', lambda: '%d nodes, expected %d' % (c.get_nodes_number(), len(num)))
            if '0' in num:
                r.need(c.ext_node_to_int('0') == 0 and c.int_node_to_ext(0) == '0', 'node:ground', 'ground')
                r.need(sorted(num.values()) == list(range(len(num))), 'node:numbers', 'numbers')
            r.need(c.get_ground_node() == '0' and c.gnd == '0', 'node:ground', 'ground name')
            for x in names:
                r.need(c.ext_node_to_int(x) == num[x] and c.int_node_to_ext(num[x]) == x, 'node:inverse', lambda: '%r -> %r -> %r, expected %d' % (
                    x, c.ext_node_to_int(x), c.int_node_to_ext(num[x]), num[x]))
                if x.startswith('INT') or 'INT' not in x:
                    r.need(c.is_int_node_internal_only(num[x]) == x.startswith('INT'), 'node:internal', 'internal flag of %r' % x)
            for x in ('nowhere', 'A0', ''):
                if x not in num:
                    try:
                        c.ext_node_to_int(x)
                        r.fail('node:unknown', 'translated %r' % x)
                    except KeyError:
                        r.n += 1
            for x in (len(num) + 1, 1000, -1):
                try:
                    c.int_node_to_ext(x)
                    r.fail('node:unknown', 'translated %r' % x)
                except KeyError:
                    r.n += 1
    r.section('sequence', cases(r.count(800, 20000)), check)
    r.done()


if __name__ == '__main__':
    main()
