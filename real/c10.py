from circ import *


def main():
    r = R('start, stop and number of points of both grids (both directions, equal ends, 1 to 400 points, decades apart), '
          'step/points combinations; distinct by values')
    ut = r.get('utilities')

    def lin():
        g = r.rng('lin')
        for i in range(r.count(1500, 20000)):
            a, b = [g.choice([0., 1., -2., 1e3, g.uniform(-5, 5), 10 ** g.uniform(-12, 12)]) for _ in range(2)]
            n = g.choice([2, 3, 4, 10, 11, 101, g.randint(2, 400)])
            if g.random() < .1:
                b, n = a, 1
            if g.random() < .2:
                a, b = int(a), int(b)
            yield a, b, n

    def log():
        g = r.rng('log')
        for i in range(r.count(1500, 20000)):
            a, b = [g.choice([1., 1e3, 2.5, 10 ** g.uniform(-12, 12)]) for _ in range(2)]
            yield a, b, g.choice([2, 3, 4, 10, 11, 101, g.randint(2, 400)])

    def grid(it, mk, exp, case, sc, rtol, atol):
        a, b, n = case
        got = [float(v) for v in it]
        r.need(len(got) == n, 'grid:count', lambda: '%d values, asked for %d' % (len(got), n))
        r.need(abs(got[0] - a) <= 1e-12 * abs(a), 'grid:start', lambda: 'starts at %r' % got[0])
        r.need(abs(got[-1] - b) <= rtol * abs(b) + atol, 'grid:stop', lambda: 'ends at %r' % got[-1])
        for i, (x, y) in enumerate(zip(got, exp)):
            r.need(abs(x - y) <= rtol * abs(y) + atol, 'grid:value', lambda: 'value %d is %r, expected %r' % (i, x, y))
        o = mk()
        for i in list(range(n))[::max(1, n // 25)] + [n - 1]:
            r.need(abs(float(o[i]) - exp[i]) <= rtol * abs(exp[i]) + atol, 'grid:index', lambda: 'index %d is %r, expected %r' % (i, o[i], exp[i]))
        r.need(o[n] is None, 'grid:index', lambda: 'index %d (past the end) is %r' % (n, o[n]))
        # indexing does not disturb the iteration
        o = mk()
        it2 = iter(o)
        got2 = []
        for i in range(n):
            got2.append(float(next(it2)))
            for j in (i, 0, n - 1, n // 2) if n < 20 or i % 16 == 0 else (i,):
                r.need(abs(float(o[j]) - exp[j]) <= rtol * abs(exp[j]) + atol, 'grid:index-late',
                       lambda: 'index %d after %d values is %r, expected %r' % (j, i + 1, o[j], exp[j]))
        r.need(got2 == got, 'grid:index-iter', 'indexing changes the iteration')
        try:
            next(it2)
        except StopIteration:
            pass
        else:
            r.fail('grid:count', 'more values than points')

    def lincase(case):
        a, b, n = case
        exp = [a + (b - a) * i / float(n - 1) if n > 1 else a for i in range(n)]
        sc = max(abs(a), abs(b))
        mk = lambda: ut.lin_axis_iterator(a, b, n)
        grid(mk(), mk, exp, case, sc, 1e-12, 1e-13 * n * sc)

    def logcase(case):
        a, b, n = case
        exp = [a * (b / float(a)) ** (i / float(n - 1)) for i in range(n)]
        mk = lambda: ut.log_axis_iterator(a, b, n)
        grid(mk(), mk, exp, case, 0, 1e-11 * (1 + n / 10.), 0)

    def bad(case):
        f, a, b, n = case
        try:
            o = list(getattr(ut, f)(a, b, n))
        except (ValueError, ZeroDivisionError, ArithmeticError):
            return
        r.fail('grid:bad', 'accepted, gives %s' % o)

    def steps():
        g = r.rng('step')
        for i in range(r.count(3000, 40000)):
            per = g.choice([1., 1e-3, 2e-6, 10 ** g.uniform(-9, 3)])
            n = g.choice([2, 3, 10, 50, 100, 101, g.randint(2, 2000)])
            yield per, n, g.choice([1., 1., 1., g.uniform(.6, 1.4)])

    def stepcase(case):
        per, n, f = case
        p, s = ut.check_step_and_points(None, n, per, 100)
        r.need(p == n and close(s * (n - 1), per, rtol=1e-12), 'step:from-points', lambda: 'points %s step %r for %d points' % (p, s, n))
        st = per / (n - 1.) * f
        if st > per:
            return
        p, s = ut.check_step_and_points(st, None, per, 100)
        r.need(isinstance(p, int) and p >= 2, 'step:type', lambda: 'points %r' % (p,))
        r.need(close(s * (p - 1), per, rtol=1e-9), 'step:period', lambda: 'step %r and %d points do not span the period %r (asked step %r)' % (s, p, per, st))
        r.need(s >= st * (1 - 1e-9) and s < st * (1 + 1. / int(per / st + 1e-9)) * (1 + 1e-9), 'step:size', lambda: 'step %r for %r' % (s, st))
        if f == 1.:
            r.need(p == n and close(s, st, rtol=1e-9), 'step:reverse', lambda: '%d points for the step of %d points (%r, %r)' % (p, n, s, st))
        p, s = ut.check_step_and_points(st, 7, per, 100)
        r.need(close(s * (p - 1), per, rtol=1e-9), 'step:both', lambda: '%r %r' % (p, s))
        p, s = ut.check_step_and_points(None, None, per, n)
        r.need(p == n and close(s * (n - 1), per, rtol=1e-12), 'step:default', lambda: '%r %r' % (p, s))

    r.section('lin', lin(), lincase)
    r.section('log', log(), logcase)
    r.section('bad', [('lin_axis_iterator', 0., 1., 1), ('lin_axis_iterator', 0., 1., 0), ('lin_axis_iterator', 1., 1., 0),
                      ('lin_axis_iterator', 0., 1., -3), ('log_axis_iterator', 1., 10., 1)], bad)
    r.section('step', steps(), stepcase)
    r.done()


if __name__ == '__main__':
    main()
