from circ import *
from decimal import Decimal
SC = {'': Decimal(1), 'T': Decimal('1e12'), 'G': Decimal('1e9'), 'MEG': Decimal('1e6'), 'K': Decimal('1e3'), 'MIL': Decimal('25.4e-6'),
      'M': Decimal('1e-3'), 'U': Decimal('1e-6'), 'N': Decimal('1e-9'), 'P': Decimal('1e-12'), 'F': Decimal('1e-15')}


def plain(g):
    s = g.choice(['', '', '', '+', '-'])
    k = g.randrange(5)
    if k == 0:
        m = str(g.randrange(0, 1000))
    elif k == 1:
        m = '%d.%d' % (g.randrange(0, 1000), g.randrange(0, 10000))
    elif k == 2:
        m = '.%d' % g.randrange(0, 1000)
    elif k == 3:
        m = '%d.' % g.randrange(0, 1000)
    else:
        m = '0' * g.randrange(3) + str(g.randrange(0, 10 ** g.randrange(1, 12)))
    e = ''
    if g.random() < .4:
        e = g.choice('eE') + g.choice(['', '+', '-']) + g.choice(['%d', '%02d']) % g.randrange(0, 20)
    return s + m + e


def rcase(g, s):
    return ''.join(g.choice([c.upper(), c.lower()]) for c in s)


def isnum(t):
    """the documented form: [+-] digits [. digits] [e [+-] digits] [scale], any case"""
    import re
    return re.match(r'^[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?(t|g|meg|k|mil|m|u|n|p|f)?$', t.strip().lower()) is not None


def main():
    r = R('numbers in plain and exponent form with every sign and scale suffix in every case, with surrounding blanks; '
          'text that is no such number (mutations of numbers, and every string of up to 3 (thorough: 4) characters of a small alphabet); '
          'distinct by text')
    cu = r.get('netlist_parser.convert_units')
    NPE = r.get('netlist_parser.NetlistParseError')

    def good():
        g = r.rng('good')
        for suf in sorted(SC):
            for m in ('1', '2.5', '-3', '+4', '.5', '7.', '1e3', '1E-3', '2.5e+2', '0', '-.25e1'):
                for c in (suf.lower(), suf.upper(), suf.capitalize(), rcase(g, suf)):
                    yield m, suf, c, ''
        for i in range(r.count(6000, 60000)):
            suf = g.choice(sorted(SC))
            yield plain(g), suf, rcase(g, suf), g.choice(['', '', ' ', '  ', '\t'])

    def goodcase(case):
        m, suf, c, ws = case
        t = ws + m + c + ws
        exp = float(Decimal(m) * SC[suf])
        got = cu(t)
        r.need(isinstance(got, float) and abs(got - exp) <= 4e-16 * abs(exp), 'units:value', lambda: '%r read as %r, denotes %r' % (t, got, exp))

    def bad():
        g = r.rng('bad')
        import itertools
        al = '1.+-ekmg f'
        for n in range(1, r.count(4, 5)):
            for t in itertools.product(al, repeat=n):
                yield ''.join(t)
        for t in ('', ' ', 'inf', 'nan', '-inf', '1_000', '0x10', '1e', '1e+', '1ee3', '1kk', '1meg2', '1k5', '1 k', '1mi', '1mill', '1a',
                  '1d3', '1,5', '1..2', '1.2.3', '--1', '+-1', '1-', '1+2', 'k', 'meg', 'e3', '.', '+', '-.', '.e3', '1e1.5', '1ohm', '1kohm',
                  '1v', '5%', '1/2', '1*2', '1e3e3', '1j', '(1)', '1;', '1x', '1y', '1z', '1e1k1', 'infinity', '1\n2', '1\xb5'):
            yield t
        for i in range(r.count(4000, 40000)):
            t = list(plain(g) + g.choice(sorted(SC)))
            for j in range(g.choice([1, 1, 2])):
                k = g.randrange(len(t) + 1)
                c = g.choice('0123456789.+-eEkKmMgGtufnpxX%_, i=')
                if g.random() < .5 or k >= len(t):
                    t.insert(k, c)
                else:
                    t[k] = c
            yield ''.join(t)

    def badcase(t):
        ok = isnum(t)
        try:
            got = cu(t)
        except (ValueError, NPE):
            r.need(not ok, 'units:reject', lambda: '%r is a number but rejected' % t)
            return
        r.need(ok, 'units:accept', lambda: '%r is no number but read as %r' % (t, got))
        u = t.strip().upper()
        for suf in sorted(SC, key=len, reverse=True):
            if suf and u.endswith(suf):
                break
        else:
            suf = ''
        m = u[:len(u) - len(suf)]
        if abs(float(m)) > 1e250 or abs(float(m)) < 1e-250:
            return              # beyond what a float holds
        exp = float(Decimal(m) * SC[suf])
        if abs(exp) > 1e280 or 0 < abs(exp) < 1e-280:
            return              # beyond what a float holds
        r.need(abs(got - exp) <= 4e-16 * abs(exp), 'units:value', lambda: '%r read as %r, denotes %r' % (t, got, exp))

    # the same through a netlist line
    def line(case):
        t, ok = case
        c = parse(['r1 a 0 ' + t], NPE)
        if ok:
            m, suf = ok
            exp = float(Decimal(m) * SC[suf])
            r.need(c is not None and abs(c[0].value - exp) <= 4e-16 * abs(exp), 'units:netlist', lambda: 'R line with %r: %r' % (t, c and c[0].value))
        else:
            r.need(c is None, 'units:netlist', lambda: 'R line with %r accepted: %r' % (t, c and c[0].value))

    def lines():
        g = r.rng('line')
        for i in range(r.count(400, 4000)):
            suf = g.choice(sorted(SC))
            m = plain(g)
            if float(m) == 0:
                continue
            yield m + rcase(g, suf), (m, suf)
        for t in ('1x', 'abc', '1kk', '--3', '1e', '1.2.3', 'k'):
            yield t, None

    r.section('numbers', good(), goodcase)
    r.section('text', bad(), badcase)
    r.section('netlist', lines(), line)
    r.done()


if __name__ == '__main__':
    main()
