"""C18: names inside a subcircuit instance.

The instance's view of the circuit (_circuit_wrapper) is verified against the
contract of Circuit.add_node (C14), for any ports, any names and any history of
calls."""
import z3
from .model import *

W_ = 'ahkab.circuit._circuit_wrapper'
Bz = z3.BoolSort()


def wrapper(eng):
    it = new_interp(eng)
    it.texts = True

    def driver():
        has, to = uf('is_port', Name, Bz), uf('connected_to', Name, Name)
        num = uf('number_after', Name, Z)
        ports = VMap(eng, {'n': lambda q: has(q), 'i': lambda q: z3.BoolVal(False)},
                     {'n': lambda q: to(q), 'i': lambda q: z3.IntVal(0)}, z3.Int('n_ports'))
        name, label = z3.Const('subckt', Name), z3.Const('label', Name)
        gnd = it.name_lit('0')
        calls = []

        def add_node(i, a, k):
            calls.append((a[0], a[1] if len(a) > 1 else k['ext_name']))
            return num(i.name_lit(calls[-1][1]) if isinstance(calls[-1][1], str) else calls[-1][1])
        it.overrides['ahkab.circuit.Circuit.add_node'] = add_node
        circ = Obj(eng, it.qual('ahkab.circuit.Circuit'), {'gnd': '0'})
        w = it.call(it.qual(W_), [circ, ports, name, label], {})
        eng.assumptions.add('texts: a + b == a + c only if b == c (cancellation)')

        def local(x):
            return it.text([label, '-', name, '-', x])

        def want(x):
            return z3.If(x == gnd, gnd, z3.If(has(x), to(x), local(x)))
        lit = lambda y: it.name_lit(y) if isinstance(y, str) else y
        # any history: the names used before are a, b, ... in any relation to x
        xs = [z3.Const('node_%d' % q, Name) for q in range(3)]
        for x in xs:
            n0 = len(calls)
            r = it.call(it.getattr(w, 'add_node'), [x], {})
            eng.prove(len(calls) == n0 + 1 and calls[-1][0] is circ, 'add_node.one_node_of_the_outer_circuit')
            y = lit(calls[-1][1])
            eng.prove(z3.Implies(x == gnd, y == gnd), 'add_node.ground_is_the_outer_ground')
            eng.prove(z3.Implies(z3.And(x != gnd, has(x)), y == to(x)), 'add_node.port_is_the_node_given_for_it')
            eng.prove(z3.Implies(z3.And(x != gnd, z3.Not(has(x))), y == local(x)), 'add_node.other_nodes_carry_the_prefix_of_the_instance')
            eng.prove(eqz(r, num(y)), 'add_node.returns_the_number')
        a, b = xs[:2]
        eng.assume(z3.Implies(local(a) == local(b), a == b))
        inner = lambda x: z3.And(x != gnd, z3.Not(has(x)))
        eng.prove(z3.Implies(z3.And(inner(a), inner(b)), (want(a) == want(b)) == (a == b)), 'add_node.distinct_inner_nodes_stay_distinct')
        # the ports handed over belong to the caller
        eng.prove(z3.And(zbool(ports.has('n', xs[2])) == has(xs[2])), 'add_node.port_map_of_the_caller_unchanged')
        eng.cover('add_node')
    eng.explore(driver)


PROOFS = {'wrapper': {'fn': wrapper, 'timeout': 60, 'functions': ['circuit._circuit_wrapper.__init__', 'circuit._circuit_wrapper.add_node']}}
