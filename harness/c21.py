"""Laurent polynomials."""
from alg import *


def low(x):
    while x[1] and x[1][0] == 0: x = [x[0] + 1, x[1][1:]]
    return x if x[1] else [0, []]


def replay(out, inp, part, parts):
    with open(inp) as f:
        for no, line in enumerate(f):
            if no % parts != part: continue
            e = json.loads(line)
            def quot(f):
                try: return f()
                except (ValueError, AssertionError, ZeroDivisionError, ArithmeticError): return []
            def step():
                X, Y = LPoly(e['lo'], e['a']), LPoly(0, tuple(e['b']))
                d = dict(sum=enc_poly(X + Y), diff=enc_poly(X - Y), prod=enc_poly(X * Y), cube=enc_poly(X ** 3), div=quot(lambda: [enc_poly(X / Y)]), eq=bool(X == Y),
                         at=[enc_poly(X.evaluate(Y))] if e['at'] else [])
                if (X == Y) and hash(X) != hash(Y): d['hash'] = 0
                P, R = Poly(*e['a']), Poly(*e['b'])
                d['dm'] = quot(lambda: [low(enc_P(z)) for z in divmod(P, R)])
                return d
            _, res = attempt(step, lambda x: x)
            out.replayed += 1
            want = dict(ok=1, **{k: e[k] for k in ('sum', 'diff', 'prod', 'cube', 'div', 'eq', 'at', 'dm')})
            if res != want: out.bad.append(dict(run='edge%d' % no, clause='replayed operations: got %s, specification says %s' % (res, want), event=e))
            if no < 1: out.samples.append(e)


def record(out, part, parts, tier, seed, inp):
    if inp: return replay(out, inp, part, parts)
    for no in range(30 if tier == 'quick' else 400):
        r = rng(seed, 'c21', part, no)
        q = BIG if no % 3 == 2 else 0
        m = A(out.new('laurent%d.%d' % (part, no), q=q), r, q, 'L')
        for _ in range(120): m.step()
        for i, x in enumerate(m.regs):
            if x is not None: m.see(i + 1)
