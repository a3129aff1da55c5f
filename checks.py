"""What each check runs: TLC jobs on the specification, recorders of the code, trace specifications."""


def P(q, t):
    return dict(quick=q, thorough=t)


BR = ['Normal', 'Denotes', 'Converts', 'Inverses', 'Powers']


def mcb(n, l, view='VALL', inv=BR, tiers=('quick', 'thorough'), edges=None, parts=2):
    j = dict(module='MC_Braid', consts=dict(NN=n, LL=l, EMIT='TRUE' if edges else 'FALSE'), view=view, inv=inv, tiers=tiers)
    if edges:
        j.update(edges=edges, edge_parts=parts)
    return j



def mce(k, n, l, tiers):
    return dict(module='MC_Enum', consts=dict(KK='"%s"' % k, NN=n, LL=l), inv=['Normal', 'Appends', 'Suffixes'], tiers=tiers)



def mcr(n, r, p, l, tiers, edges=None, parts=2):
    j = dict(module='MC_Rep', consts=dict(NN=n, RR=r, PP=p, LL=l, EMIT='TRUE' if edges else 'FALSE'), view='VXM', inv=['WellDefined'], tiers=tiers)
    if edges: j.update(edges=edges, edge_parts=parts)
    return j


def mcp(i, j, k, d, e, lo, hi, tiers, parts=2, edges='c10'):
    return dict(module='MC_Polymat', consts=dict(II=i, JJ=j, KK=k, DD=d, EE=e, NEG=-lo, HIC=hi, EMIT='TRUE' if edges else 'FALSE'), inv=['Laws'], tiers=tiers, edges=edges, edge_parts=parts)


def mca(d, neg, hi, lo, sp, edges, tiers, parts=2):
    return dict(module='MC_Alg', consts=dict(DD=d, NEG=neg, HIC=hi, LO=lo, SPECIAL=sp, EMIT='TRUE'), inv=['Laws'], tiers=tiers, edges=edges, edge_parts=parts)


def mcl(n, l, q, t, view, inv, edges, tiers, parts=2):
    return dict(module='MC_LKB', consts=dict(NN=n, LL=l, QE=q, TE=t + 20, EMIT='TRUE' if edges else 'FALSE'), view=view, inv=inv, tiers=tiers, edges=edges, edge_parts=parts)


Q, T = ('quick',), ('thorough',)


def mcs(lmax, runs, inv, tiers, **kw):
    return dict(module='MC_Search', consts=dict(LMAX=lmax, BOOT=1, CAP=2, RUNS=runs, BUDGETS='{0, 2, 3}', STEPWISE=kw.pop('stepwise', 'TRUE')), inv=inv, tiers=tiers, **kw)
def mcbk(n, r, p, k, l, kk, steps, ops, methods, caps, crits, tiers, edges='buckets', parts=2, inv=('Laws', 'Exhaustive', 'Twice')):
    st = lambda xs: '{%s}' % ', '.join(('"%s"' % x) if isinstance(x, str) else str(x) for x in xs)
    return dict(module='MC_Buckets', consts=dict(NN=n, RR=r, PP=p, KIND='"%s"' % k, MAXLEN=l, KK=kk, STEPS=steps, OPS=st(ops), METHODS=st(methods), CAPS=st(caps), CRITS=st(crits), EMIT='TRUE'),
                view='VB', inv=list(inv), props=['Local'], tiers=tiers, edges=edges, edge_parts=parts)


RES, LEG = ('GreedyFirst', 'Uniform', 'AChao', 'EvictMin'), ('Legacy', 'LegacyR')
GROW = ('boot', 'extend', 'discard', 'offer')


def mcst(n, l, e, tiers, edges, parts=2):
    return dict(module='MC_Stored', consts=dict(NN=n, LMAX=l, EDITS=e, EMIT='TRUE'), view='VT', inv=['ReadsBack', 'Punctuation'], tiers=tiers, edges=edges, edge_parts=parts)


CHECKS = {
    'C02': dict(trace='Trace_Braid', drivers=[('c02', P(4, 8))],
                mc=[mcb(3, 5, tiers=Q), mcb(4, 3, tiers=Q), mcb(3, 6, 'VX', ['Normal'], edges='c02', tiers=Q), mcb(4, 4, 'VX', ['Normal'], edges='c02', tiers=Q),
                    mcb(5, 3, 'VX', ['Normal'], edges='c02', tiers=Q),
                    mcb(3, 9, tiers=T), mcb(4, 6, tiers=T), mcb(5, 4, tiers=T), mcb(3, 10, 'VX', ['Normal'], edges='c02', parts=4, tiers=T),
                    mcb(4, 7, 'VX', ['Normal'], edges='c02', parts=4, tiers=T), mcb(5, 5, 'VX', ['Normal'], edges='c02', parts=4, tiers=T)]),
    'C03': dict(trace='Trace_Braid', drivers=[('c03', P(5, 8))],
                mc=[mcb(3, 5, tiers=Q), mcb(4, 3, tiers=Q), mcb(3, 6, 'VY', ['Normal'], edges='c03', tiers=Q), mcb(4, 4, 'VY', ['Normal'], edges='c03', tiers=Q),
                    mcb(5, 3, 'VY', ['Normal'], edges='c03', tiers=Q),
                    mcb(3, 9, tiers=T), mcb(4, 6, tiers=T), mcb(5, 4, tiers=T), mcb(3, 10, 'VY', ['Normal'], edges='c03', parts=4, tiers=T),
                    mcb(4, 7, 'VY', ['Normal'], edges='c03', parts=4, tiers=T), mcb(5, 5, 'VY', ['Normal'], edges='c03', parts=4, tiers=T)]),
    'C01': dict(trace='Trace_Braid', drivers=[('c01', P(8, 8))], mc=[mcb(3, 4, tiers=Q), mcb(3, 8, tiers=T), mcb(4, 5, tiers=T)]),
    'C04': dict(trace='Trace_Braid', drivers=[('c04', P(4, 8))], mc=[mcb(3, 4, tiers=Q), mcb(3, 8, tiers=T), mcb(4, 5, tiers=T)]),
    'C05': dict(trace='Trace_Braid', drivers=[('c05', P(4, 8))],
                mc=[mcb(3, 5, edges='c05', tiers=Q), mcb(4, 3, edges='c05', tiers=Q), mcb(3, 8, edges='c05', parts=4, tiers=T), mcb(4, 6, edges='c05', parts=4, tiers=T), mcb(5, 4, edges='c05', parts=4, tiers=T)]),
    'C06': dict(trace='Trace_Braid', drivers=[('c06', P(8, 8))], mc=[mce('G', 3, 4, Q), mce('D', 4, 3, Q), mce('G', 4, 2, Q), mce('G', 3, 9, T), mce('D', 4, 5, T), mce('G', 4, 3, T), mce('D', 5, 3, T)]),
    'C07': dict(trace='Trace_Rep', drivers=[('c07', P(8, 16))],
                mc=[mcr(3, 1, 0, 4, Q, 'c07'), mcr(4, 1, 5, 3, Q, 'c07'), mcr(4, 2, 0, 3, Q, 'c07')] +
                   [mcr(3, 1, 0, 7, T, 'c07'), mcr(4, 1, 0, 5, T, 'c07', 4), mcr(4, 2, 3, 5, T, 'c07', 4), mcr(5, 2, 2, 3, T, 'c07', 4), mcr(5, 1, 0, 4, T, 'c07', 4)]),
    'C08': dict(trace='Trace_Rep', drivers=[('c08', P(8, 16))], mc=[mcr(4, 1, 2, 3, Q), mcr(5, 2, 0, 2, Q), mcr(4, 1, 2, 5, T), mcr(5, 2, 0, 3, T)]),
    'C09': dict(trace='Trace_Rep', drivers=[('c09', P(8, 16))], mc=[mcr(4, 1, 3, 3, Q), mcr(4, 1, 3, 5, T)]),
    'C10': dict(trace='Trace_Polymat', drivers=[('c10', P(8, 16))],
                mc=[mcp(1, 1, 1, 3, 3, -1, 1, Q), mcp(1, 2, 1, 2, 2, -1, 1, Q), mcp(2, 2, 1, 2, 1, 0, 1, Q), mcp(1, 1, 1, 4, 4, -1, 1, T, 4), mcp(2, 2, 1, 2, 2, 0, 1, T, 4), mcp(2, 1, 2, 2, 3, 0, 1, T, 4)]),
    'C21': dict(trace='Trace_Alg', drivers=[('c21', P(6, 16))], mc=[mca(3, 1, 2, 1, 'TRUE', 'c21', Q), mca(3, 2, 2, 2, 'FALSE', 'c21', T, 4), mca(4, 1, 1, 2, 'TRUE', 'c21', T, 4), mca(4, 0, 2, 1, 'FALSE', 'c21', T, 4)]),
    'C22': dict(trace='Trace_Alg', drivers=[('c22', P(8, 16))], mc=[mca(3, 1, 2, 0, 'TRUE', 'c22', Q), mca(3, 2, 2, 0, 'TRUE', 'c22', T, 4), mca(4, 1, 1, 0, 'FALSE', 'c22', T, 4)]),
    'C23': dict(trace='Trace_Alg', drivers=[('c23', P(8, 16))], mc=[mcp(2, 2, 2, 1, 1, -1, 1, Q, edges=None), mcp(2, 2, 1, 2, 2, 0, 1, T, edges=None)]),
    'C24': dict(trace='Trace_LKB', drivers=[('c24', P(8, 16))], mc=[mcl(3, 4, 1, -3, 'VX', [], 'c24', Q), mcl(4, 2, 2, 1, 'VX', [], 'c24', Q), mcl(3, 3, 2, 5, 'VXM', ['WellDefined'], None, Q),
                mcl(3, 7, 1, -3, 'VX', [], 'c24', T), mcl(4, 4, 2, 1, 'VX', [], 'c24', T, 4), mcl(5, 3, 1, 1, 'VX', [], 'c24', T, 4), mcl(3, 7, 2, 5, 'VXM', ['WellDefined'], None, T), mcl(4, 4, 1, 2, 'VXM', ['WellDefined'], None, T)]),
    'C19': dict(trace='Trace_Perm', drivers=[('c19', P(4, 8))],
                mc=[dict(module='MC_NC', consts=dict(NN=5, EMIT='TRUE'), inv=['Laws'], tiers=Q, edges='c19'), dict(module='MC_NC', consts=dict(NN=6, EMIT='TRUE'), inv=['Laws'], tiers=T, edges='c19'),
                    dict(module='MC_NC', consts=dict(NN=7, EMIT='TRUE'), inv=['Laws'], tiers=T, edges='c19')]),
    'C20': dict(trace='Trace_Perm', drivers=[('c20', P(4, 8))],
                mc=[dict(module='MC_Perm', consts=dict(NN=4, EMIT='TRUE', DEEP='TRUE'), inv=['Laws'], tiers=('quick', 'thorough'), edges='c20'),
                    dict(module='MC_Perm', consts=dict(NN=5, EMIT='TRUE', DEEP='FALSE'), inv=['Laws'], tiers=Q, edges='c20'),
                    dict(module='MC_Perm', consts=dict(NN=6, EMIT='TRUE', DEEP='FALSE'), inv=['Laws'], tiers=T, edges='c20', edge_parts=4)]),
    'C18': dict(trace='Trace_TL', drivers=[('c18', P(8, 16))],
                mc=[dict(module='MC_TL', consts=dict(NN=2, MM=4, EMIT='TRUE'), inv=['Laws'], tiers=Q, edges='c18'),
                    dict(module='MC_TL', consts=dict(NN=1, MM=5, EMIT='TRUE'), inv=['Laws'], tiers=('quick', 'thorough'), edges='c18'),
                    dict(module='MC_TL', consts=dict(NN=2, MM=6, EMIT='TRUE'), inv=['Laws'], tiers=T, edges='c18', edge_parts=4)]),
    'C11': dict(trace='Trace_Tracker', drivers=[('c11', P(8, 16))],
                mc=[mcbk(3, 1, 2, 'G', 2, 4, 4, ('offer', 'discard'), RES, (1, 2), (99,), Q), mcbk(3, 1, 3, 'D', 2, 4, 4, ('offer', 'discard'), RES, (1, 2), (99,), Q),
                    mcbk(3, 1, 2, 'G', 2, 5, 5, ('offer', 'discard'), RES, (1, 2, 3), (99,), T, parts=4), mcbk(4, 2, 3, 'D', 2, 6, 4, ('offer', 'discard'), RES, (1, 2), (99,), T, parts=4)]),
    'C12': dict(trace='Trace_Tracker', drivers=[('c12', P(8, 16))],
                mc=[dict(module='MC_Tracker', consts=dict(KK=3, LL=5, CC=2, EMIT='FALSE'), inv=['Laws', 'Tight'], props=['Keeps', 'OneAtATime'], tiers=Q),
                    dict(module='MC_Tracker', consts=dict(KK=3, LL=5, CC=2, EMIT='TRUE'), view='VOffers', tiers=Q, edges='c12'),
                    dict(module='MC_Tracker', consts=dict(KK=3, LL=6, CC=3, EMIT='FALSE'), inv=['Laws', 'Tight'], props=['Keeps', 'OneAtATime'], tiers=T),
                    dict(module='MC_Tracker', consts=dict(KK=4, LL=6, CC=3, EMIT='TRUE'), view='VOffers', tiers=T, edges='c12', edge_parts=6)]),
    'C13': dict(trace='Trace_Tracker', drivers=[('c13', P(8, 16))],
                mc=[mcbk(3, 1, 2, 'G', 3, 2, 3, GROW, RES, (0,), (99,), Q), mcbk(3, 1, 3, 'D', 4, 2, 3, GROW, RES, (0,), (99,), Q), mcbk(4, 1, 2, 'D', 2, 1, 2, GROW, ('Uniform',), (0,), (99,), Q),
                    mcbk(3, 1, 2, 'G', 4, 2, 4, GROW, ('Uniform', 'EvictMin'), (0,), (99,), T, parts=4), mcbk(3, 1, 0, 'D', 5, 1, 5, GROW, ('Uniform', 'AChao'), (0,), (99,), T, parts=4), mcbk(4, 1, 2, 'G', 2, 1, 3, GROW, ('Uniform',), (0,), (99,), T, parts=4)]),
    'C14': dict(trace='Trace_Tracker', drivers=[('c14', P(8, 16))],
                mc=[mcbk(3, 1, 2, 'G', 3, 4, 3, GROW + ('product', 'substrings'), LEG, (0,), (1, 2, 99), Q), mcbk(3, 1, 3, 'G', 2, 4, 4, ('offer', 'discard'), LEG, (1, 2), (1, 99), Q),
                    mcbk(3, 1, 2, 'G', 4, 3, 4, GROW + ('product', 'substrings'), ('LegacyR',), (0,), (3, 99), T, parts=4), mcbk(4, 1, 2, 'G', 2, 1, 3, GROW + ('substrings',), LEG, (0,), (1, 99), T, parts=4)]),
    'C15': dict(trace='Trace_Search', drivers=[('c15', P(8, 16))], mc=[mcs(3, 1, ['WholeSteps', 'BestFirst'], Q), mcs(4, 1, ['WholeSteps', 'BestFirst'], T)]),
    'C16': dict(trace='Trace_Search', drivers=[('c16', P(8, 16))],
                mc=[mcs(2, 2, ['WholeSteps', 'Finished'], Q, props=['AppendOnly', 'Ends']), mcs(2, 1, ['WholeSteps'], ('quick', 'thorough'), stepwise='FALSE', refute='Invariant WholeSteps'),
                    mcs(3, 2, ['WholeSteps', 'Finished'], T, props=['AppendOnly']), mcs(2, 3, ['WholeSteps', 'Finished'], T, props=['AppendOnly'])]),
    'C17': dict(trace='Trace_DB', drivers=[('c17', P(8, 16)), ('c17s', P(2, 6), 'Trace_Search')],
                mc=[mcst(3, 1, 1, Q, 'c17'), mcst(3, 2, 0, Q, 'c17', 1), mcst(4, 1, 0, Q, 'c17', 1), mcb(3, 4, edges='c17', tiers=Q), mcb(4, 2, edges='c17', tiers=Q),
                    mcst(3, 2, 1, T, 'c17', 4), mcst(2, 2, 2, T, 'c17', 4), mcst(4, 2, 0, T, 'c17', 4), mcst(4, 1, 1, T, 'c17', 4), mcst(5, 1, 0, T, 'c17'),
                    mcb(3, 7, edges='c17', tiers=T), mcb(4, 5, edges='c17', tiers=T), mcb(5, 4, edges='c17', tiers=T)]),
    'C25': dict(trace='Trace_Pure', drivers=[('c25', P(8, 16))],
                mc=[dict(module='MC_Pure', consts=dict(DESIGN='"%s"' % d, CALLS=4), inv=['Pureness'], tiers=('quick', 'thorough')) for d in ('none', 'whole')] +
                   [dict(module='MC_Pure', consts=dict(DESIGN='"%s"' % d, CALLS=4), inv=['Pureness'], tiers=('quick', 'thorough'), refute='Invariant Pureness') for d in ('part', 'scratch', 'counter', 'eats')]),
    'C26': dict(trace='Trace_Repro', drivers=[('c26', P(8, 16))],
                mc=[dict(module='MC_Repro', consts=dict(DESIGN='"%s"' % d, RUNS=3, BETWEEN=b), inv=['Reproduces'], tiers=('quick', 'thorough')) for d, b in (('own', 'TRUE'), ('seeded', 'FALSE'))] +
                   [dict(module='MC_Repro', consts=dict(DESIGN='"%s"' % d, RUNS=3, BETWEEN=b), inv=['Reproduces'], tiers=('quick', 'thorough'), refute='Invariant Reproduces') for d, b in (('shared', 'TRUE'), ('seeded', 'TRUE'), ('order', 'FALSE'))]),
}
