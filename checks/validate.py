"""C26: invalid arguments are rejected, valid ones are not."""
from itertools import product
from sa import universe as U, eqv
from sa.dom import *
from sa.eqv import Alphabet
from sa.frame import ok, viol, und
from sa.spec import B
from .rel import C, opts, tk

T, R, A = 'CommDspy.tx.', 'CommDspy.rx.', 'CommDspy.'
HC = 'CommDspy.misc.help_classes.'
SIM = 'example_simulation.simulation_parts.'


# -- data: the pattern must be binary --------------------------------------------------------------------------------
PAR = [[1, 0, 1], [0, 1, 1]]
CONV1 = {0: [[1, 1], [1, 0]]}


def conv(I, b, fn, G, fb=None, uf=None, x=None):
    g = b.dct('G', {k: b.carr('G%d' % k, v) for k, v in G.items()})
    kw = {}
    if fb is not None:
        kw['feedback'] = b.dct('feedback', {k: b.carr('fb%d' % k, v) for k, v in fb.items()})
    if uf is not None:
        kw['use_feedback'] = b.carr('use_feedback', uf)
    n = len(next(iter(G.values())))
    if x is None:
        x = b.arr('x', (2 * (len(G) if fn.startswith('coding') else n),), 'int', 0, 1)
    a = [x, g] if fn.startswith('coding') else [x, g, b.const('tb_len', 2)]
    return U.call(I, (T if fn.startswith('coding') else R) + fn, *a, **kw)


PATTERNS = {
    'coding_manchester': lambda I, b, x: U.call(I, T + 'coding_manchester', x),
    'coding_bipolar': lambda I, b, x: U.call(I, T + 'coding_bipolar', x),
    'coding_mlt3': lambda I, b, x: U.call(I, T + 'coding_mlt3', x),
    'coding_differential_manchester': lambda I, b, x: U.call(I, T + 'coding_differential_manchester', x),
    'coding_linear': lambda I, b, x: U.call(I, T + 'coding_linear', x, b.carr('G', PAR)),
    'coding_conv': lambda I, b, x: conv(I, b, 'coding_conv', CONV1, x=x),
    'decoding_manchester': lambda I, b, x: U.call(I, R + 'decoding_manchester', x),
    'decoding_differential_manchester': lambda I, b, x: U.call(I, R + 'decoding_differential_manchester', x),
    'decoding_linear': lambda I, b, x: U.call(I, R + 'decoding_linear', x, b.carr('G', [[1, 1]])),
    'decoding_conv_ml': lambda I, b, x: conv(I, b, 'decoding_conv_ml', CONV1, x=x),
    'decoding_conv_viterbi': lambda I, b, x: conv(I, b, 'decoding_conv_viterbi', CONV1, x=x),
}
DOM = Alphabet(x=(-1, 0, 1, 2))
BITS = Alphabet(x=(0, 1))


def binary(I, item):
    fn, n = item
    nm = '%s of %d values' % (fn, n)

    def go(I):
        b = B(I)
        return PATTERNS[fn](I, b, b.arr('x', (n,), 'int', -1, 2))
    ps = [p for p in I.explore(go, max_paths=400) if 'speculative' not in p.tags]
    if not I.last_complete:
        return [und('binary', nm, 'exploration incomplete after %d paths' % len(ps))]
    leafs = [('e', 'x', C(j)) for j in range(n)]
    comp = [(p, eqv.compatible(p, leafs, DOM)) for p in ps]
    cnt, unk = 0, 0
    for L in product(*[DOM.dom['x']] * n):
        must = any(v not in (0, 1) for v in L)
        seen, good = [], False
        for p, f in comp:
            c = f(L)
            if c is False:
                continue
            if p.kind == 'abort':
                good = None
                continue
            rej = p.kind == 'raise' and p.exc.exc == 'ValueError'
            if rej == must and (must or p.kind == 'return'):
                good = True
                break
            seen.append(p)
            if c is True:
                break
        if good:
            cnt += 1
        elif good is None or not seen:
            unk += 1
        else:
            p = seen[0]
            if must:
                what = 'accepts' if p.kind == 'return' else 'raises %s for' % p.exc.exc
            else:
                what = 'rejects with %s' % p.exc.exc
            return [viol('binary', '%s|%s' % (fn, 'accepts' if must else 'rejects'), p.exc.where if p.kind == 'raise' else None,
                         '%s %s the pattern (%s)' % (fn, what, ' '.join(map(str, L))))]
    recs = []
    if unk:
        recs.append(und('binary', nm, '%d of the patterns follow no decided path' % unk))
    if cnt:
        recs.append(ok('binary', '%s: %d patterns over -1, 0, 1, 2 accepted exactly when binary' % (nm, cnt), cnt))
    return recs


# -- configurations ---------------------------------------------------------------------------------------------------
CF = ('coding_conv', 'decoding_conv_ml', 'decoding_conv_viterbi')


def _cases():
    """(label, builder(I, b), None if it must be accepted else the exception)"""
    V = 'ValueError'
    out = []

    def case(label, fn, exc=V):
        out.append((label, fn, exc))
    # generator matrices and feedback rules
    for f in ('coding_linear', 'decoding_linear'):
        P = T if f.startswith('coding') else R
        for i, j, v in product(range(2), range(3), (2, -1)):
            G = [list(r) for r in PAR]
            G[i][j] = v
            case('%s, generator matrix %s' % (f, G), lambda I, b, P=P, f=f, G=G: U.call(I, P + f, b.arr('x', (6,), 'int', 0, 1), b.carr('G', G)))
    G2 = {0: [[1, 0], [0, 0], [1, 1]], 1: [[0, 0], [1, 0], [0, 1]]}
    RS, FB, UF = {0: [[1, 0, 0], [1, 0, 1]]}, {0: [1, 1, 1]}, [[0, 1]]
    R2 = {0: [[1, 0], [0, 0], [1, 1]], 1: [[0, 0], [1, 0], [0, 0]]}
    for f in CF:
        def cv(label, exc, *a, f=f):
            case('%s, %s' % (f, label), lambda I, b: conv(I, b, f, *a), exc)
        for key, i, j, v in ((0, 0, 0, 2), (0, 2, 1, -1), (1, 0, 1, 2), (1, 2, 1, 3), (1, 1, 0, -1)):
            G = {k: [list(r) for r in m] for k, m in G2.items()}
            G[key][i][j] = v
            cv('generator of input %d %s' % (key, G[key]), V, G)
        cv('feedback without use_feedback', V, RS, FB)
        cv('use_feedback with a row too many', V, RS, FB, [[0, 1], [0, 1]])
        cv('use_feedback with a column too few', V, RS, FB, [[1]])
        cv('use_feedback with a column too many', V, RS, FB, [[0, 1, 1]])
        cv('use_feedback of two inputs given for one output', V, R2, {0: [1, 1], 1: [1, 1]}, [[0], [0]])
        for v in ([1, 2, 1], [1, 1, -1], [2, 1, 1]):
            cv('feedback polynomial %s' % v, V, RS, {0: v}, UF)
        cv('feedback polynomial of the second input not binary', V, R2, {0: [1, 1], 1: [1, 2]}, [[0, 0, 1], [0, 0, 0]])
        cv('feedback used for an input without polynomial', V, R2, {0: [1, 1]}, [[0, 0, 1], [0, 0, 1]])
        cv('feedback not used for a transfer function with memory', V, RS, FB, [[0, 0]])
        cv('feedback not used for the first transfer function, which has memory', V, {0: [[1, 1, 0], [1, 0, 1]]}, FB, UF)
        cv('feedback not used for the first transfer function, whose last tap is set', V, {0: [[1, 0, 1], [1, 0, 1]]}, FB, UF)
        if f == 'coding_conv':
            cv('recursive systematic code', None, RS, FB, UF)
            cv('fully recursive code', None, {0: [[1, 1, 0], [1, 0, 1]]}, FB, [[1, 1]])
            cv('code without memory and with an unused feedback polynomial', None, {0: [[1, 0], [1, 0]]}, {0: [1, 1]}, [[0, 0]])
            cv('two inputs, feedback for the first only', None, R2, {0: [1, 1]}, [[0, 0, 1], [0, 0, 0]])
    # symbols and levels
    for n in (3, 5, 6, 7, 12, 100):
        for fl in ((), ('pn_inv',), ('inv_msb', 'inv_lsb')):
            case('bin2symbol to %d symbols %s' % (n, ','.join(fl)), lambda I, b, n=n, fl=fl: U.call(I, T + 'bin2symbol', b.vec('x', None, 'int', 0, 1), b.const('num_of_symbols', n), **{k: b.const(k, True) for k in fl}))
    for con, k in (('NRZ', 2), ('OOK', 2), ('PAM3', 3), ('PAM4', 4)):
        for m in (0, 1, 2, 3, 4, 5, 8):
            case('mapping of %s with %d levels' % (con, m), lambda I, b, con=con, m=m: U.call(I, T + 'mapping', b.vec('x', None, 'int', 0, 1), b.enum('constellation', 'ConstellationEnum', [con]), levels=b.arr('levels', (m,))), None if m == k else V)
            if m:
                case('mapping of %s with a list of %d levels' % (con, m), lambda I, b, con=con, m=m: U.call(I, T + 'mapping', b.vec('x', None, 'int', 0, 1), b.enum('constellation', 'ConstellationEnum', [con]), levels=b.lst('levels', m)), None if m == k else V)
    for lab, mk in (('no constellation', lambda b: b.const('constellation', None)), ('a name', lambda b: b.const('constellation', 'PAM4')), ('a PRBS type', lambda b: b.enum('constellation', 'PrbsEnum', ['PRBS9'])),
                    ('a number', lambda b: b.const('constellation', 4))):
        case('get_levels of ' + lab, lambda I, b, mk=mk: U.call(I, A + 'get_levels', mk(b)))
    # pulse shaping
    for osr, span, d in product((1, 2, 4), (1, 3), (-1, 0, 1, 5)):
        m = 2 * osr * span - 1 + d
        for pulse in ('rect', 'rcos'):
            case('pulse_shape %s, osr %d, span %d, memory of %d' % (pulse, osr, span, m), lambda I, b, osr=osr, span=span, m=m, pulse=pulse: U.call(
                I, 'CommDspy.channel.pulse_shape', b.vec('x'), b.const('osr', osr), b.const('span', span), b.const('pulse', pulse), zi=b.arr('zi', (m,))), V if d else None)
    for p in ('gauss', 'RECT', '', 'sinc '):
        case('pulse_shape with pulse %r' % p, lambda I, b, p=p: U.call(I, 'CommDspy.channel.pulse_shape', b.vec('x'), b.const('osr', 2), b.const('span', 2), b.const('pulse', p)))
    # receiver
    for t in ('s', 'su', 'f', 'U', ''):
        case('quantize to the format %r' % t, lambda I, b, t=t: U.call(I, R + 'quantize', b.vec('x'), b.const('total_bits', 4), b.const('frac_bits', 1), b.const('fix_point_type', t)), None if t == 's' else V)
    for nf, nd in ((3, 2), (1, 2), (4, 0), (5, 1)):
        for df, dd in ((0, 0), (-1, 0), (1, 0), (-2, 0), (3, 0), (0, 1), (0, -1), (0, 3), (None, 1), (0, None), (None, -1)):
            if df is not None and nf + df < 0 or dd is not None and nd + dd < 0 or nd == 0 and dd not in (0, None) or nd == 0 and df is None:
                continue
            bad = df not in (None, 0, -1) or nd and dd not in (None, 0)

            def ff(I, b, nf=nf, nd=nd, df=df, dd=dd):
                kw = {'ffe_taps': b.arr('ffe', (nf,))}
                if nd:
                    kw['dfe_taps'] = b.arr('dfe', (nd,))
                    if dd is not None:
                        kw['zi_dfe'] = b.arr('zi_dfe', (nd + dd,))
                if df is not None:
                    kw['zi_ffe'] = b.arr('zi_ffe', (nf + df,))
                return U.call(I, R + 'ffe_dfe', b.arr('x', (6,)), levels=b.carr('levels', [-1, 1]), **kw)
            case('ffe_dfe of %d and %d taps, memories of %s and %s' % (nf, nd, 'none' if df is None else nf + df, 'none' if dd is None or not nd else nd + dd), ff, V if bad else None)
    for n, m in ((6, 5), (6, 7), (6, 6), (6, 3), (2, 3)):
        case('ddlms_grad of %d samples with %d references' % (n, m), lambda I, b, n=n, m=m: U.call(I, R + 'ddlms_grad', b.arr('x', (n,)), b.arr('y', (n,)), b.carr('levels', [-3, -1, 1, 3]), reference_vec=b.arr('ref', (m,))), None if n == m else V)
    for reg in ('L1', 'ridge ', 'none', ''):
        case('equalization_estimation with regularisation %r' % reg, lambda I, b, reg=reg: U.call(I, A + 'equalization_estimation', b.arr('r', (12,)), b.arr('s', (12,)), ffe_postcursor=b.const('a', 1), ffe_precursor=b.const('b', 1), regularization=b.const('regularization', reg), reg_lambda=b.const('reg_lambda', 0.5)))
    for m in ('dbm', 'dB/Hz', '', 'dBV'):
        case('psa in mode %r' % m, lambda I, b, m=m: U.call(I, A + 'psa.psa', b.arr('x', (40,)), b.const('fs', 32.0), b.const('rbw', 4.0), b.const('mode', m)))
    for m in ('cubic', 'Sinc', ''):
        case('digital_oversample by %r' % m, lambda I, b, m=m: U.call(I, A + 'digital_oversample', b.arr('x', (20,)), b.const('osr', 2), b.const('order', 3), b.const('method', m)), 'AttributeError')
    # filter objects
    for nb, na, d in product((1, 2, 4), (1, 3), (-1, 0, 1)):
        if nb + d >= 0:
            case('Filter of %d and %d coefficients, input memory of %d' % (nb, na, nb + d), lambda I, b, nb=nb, na=na, d=d: U.call(I, HC + 'Filter', b.arr('b', (nb,)), b.arr('a', (na,)), z_fir=b.lst('z_fir', nb + d)), V if d else None)
        if na > 1:
            case('Filter of %d and %d coefficients, output memory of %d' % (nb, na, na - 1 + d), lambda I, b, nb=nb, na=na, d=d: U.call(I, HC + 'Filter', b.arr('b', (nb,)), b.arr('a', (na,)), z_iir=b.lst('z_iir', na - 1 + d)), V if d else None)
        z = max(nb, na) - 1
        if z + d > 0:
            case('FilterTII of %d and %d coefficients, memory of %d' % (nb, na, z + d), lambda I, b, nb=nb, na=na, z=z, d=d: U.call(I, HC + 'FilterTII', b.arr('b', (nb,)), b.arr('a', (na,)), z=b.lst('z', z + d)), V if d else None)
    # configuration of the example receiver
    pre, post, dfe = 2, 3, 2

    def data(b, **kw):
        k = {'levels': b.carr('levels', [-1, 1])}
        k.update(kw)
        return [b.const('pre', pre), b.const('post', post), b.const('dfe', dfe)], {n: v for n, v in k.items() if v is not None}
    for name, n in (('ffe_vec', pre + post + 1), ('dfe_vec', dfe), ('zi_ffe', pre + post + 1), ('zi_dfe', dfe)):
        for d in (-1, 0, 1, 2):
            def fd(I, b, name=name, n=n, d=d):
                a, k = data(b, **{name: b.arr(name, (n + d,))})
                return U.call(I, SIM + 'data_objects.FfeDfeData', *a, **k)
            case('FfeDfeData with %s of %d' % (name, n + d), fd, V if d else None)
            if name in ('ffe_vec', 'dfe_vec'):
                def st(I, b, name=name, n=n, d=d):
                    a, k = data(b)
                    o = U.call(I, SIM + 'receiver.FfeDfe', U.call(I, SIM + 'data_objects.FfeDfeData', *a, **k))
                    return U.meth(I, o, 'set_' + name[:3], b.arr(name, (n + d,)))
                case('set_%s of %d taps' % (name[:3], n + d), st, V if d else None)

    def nol(I, b):
        a, k = data(b, levels=None)
        return U.call(I, SIM + 'data_objects.FfeDfeData', *a, **k)
    case('FfeDfeData with a DFE and no levels', nol)
    return out


def config(I, k):
    label, fn, exc = _cases()[k]
    ps = [p for p in I.explore(lambda I: fn(I, B(I)), max_paths=200) if 'speculative' not in p.tags]
    hit, unk, n = None, None, 0
    if not I.last_complete:
        unk = 'exploration incomplete'
    for p in ps:
        if p.kind == 'abort':
            unk = 'a path was not followed to its end'
            continue
        if exc is None:
            if p.kind == 'raise' and p.exc.exc in ('ValueError', 'AttributeError'):
                if p.facts or p.opaque:
                    continue
                hit = (p.exc.where, 'rejects valid arguments: %s' % p.exc.msg)
            elif p.kind == 'return':
                n += 1
            continue
        if p.kind == 'raise' and p.exc.exc == exc:
            n += 1
        elif p.opaque or p.facts:
            if not p.opaque and any(eqv.compatible(p, leafs, BITS)(L) is True for leafs in ([('e', 'x', C(j)) for j in range(n)] for n in (2, 3, 4, 6)) for L in product((0, 1), repeat=len(leafs))):
                hit = (None, 'not rejected with %s for some pattern' % exc)
                continue
            unk = 'a path that depends on the data does not reject'
        else:
            hit = (p.exc.where if p.kind == 'raise' else None, 'not rejected with %s but %s' % (exc, 'accepted' if p.kind == 'return' else 'failing with %s' % p.exc.exc))
    if hit:
        return [viol('configuration', label, hit[0], '%s: %s' % (label, hit[1]))]
    if unk:
        return [und('configuration', label, unk)]
    return [ok('configuration', '%s %s on all %d paths' % (label, 'rejected' if exc else 'accepted', n), n)] if n else []


def _go(I, it):
    return binary(I, it[1]) if it[0] == 'binary' else config(I, it[1])


def c26(ctx):
    ctx.rule('binary', 'the binary line, block and convolutional codecs accept a pattern exactly when all of its values are 0 or 1, and raise ValueError otherwise')
    ctx.rule('configuration', 'arguments of the wrong size or an unknown option are rejected with ValueError on every path; right sizes are not')
    n = {'coding_linear': (2, 3, 4), 'decoding_linear': (2, 4), 'decoding_conv_ml': (2, 4), 'decoding_conv_viterbi': (2, 4)}
    its = [('binary', (f, m)) for f in PATTERNS for m in n.get(f, (2, 4) if 'decoding' in f else (1, 2, 3, 4))]
    its += [('config', k) for k in range(len(_cases()))]
    ctx.pmap(_go, its)
