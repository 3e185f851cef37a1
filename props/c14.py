"""C14: output normalisation is exactly undone in everything reported."""
from .common import *
from .c23 import famcheck

RULE = ('Abstract interpretation of MultiGP (construction, predict, '
        'predict_quantiles) and Norm for a symbolic number of outputs of '
        'symbolic sizes, with the raw prediction left abstract: stored '
        'outputs, means, variances and quantiles compared in normal form '
        'with the affine maps of each output.')
Q = 'runlmc.models.multigp.MultiGP'


def fdata(I, D, P=1, ranks=2, xn='X', yn='Y', ln='len', lattrs=('ge1', 'pos'),
          roots=frozenset(), attrs=(), dtype='float'):
    """inputs (rank 1 or 2) and outputs of D outputs of symbolic sizes"""
    k = fresh_var('k', D)
    lt = tensor(ln, 'int', *lattrs)
    xt, yt = tensor(xn, *attrs), tensor(yn)
    sh = (el(lt, A(k)),) + ((lift(P),) if ranks == 2 else ())
    Xs = I.new_list((Fam(((k, D),), I.new_arr(
        sh, lambda ix: el(xt, A(k), *ix), dtype, roots)),))
    k2 = fresh_var('k', D)
    Ys = I.new_list((Fam(((k2, D),), I.new_arr(
        (el(lt, A(k2)),), lambda ix: el(yt, A(k2), *ix), 'float', roots)),))
    return Xs, Ys, lt, xt, yt


def mean_std(yt, lt, k):
    n = el(lt, k)
    i = fresh_var('i', n)
    mean = mk_sum(i, n, el(yt, k, A(i))) / n
    j = fresh_var('j', n)
    var = mk_sum(j, n, (el(yt, k, A(j)) - mean) ** 2) / n
    return mean, T.sqrt(var)


def run(chk):
    for norm in (True, False):
        for rank in (1, 2):
            tag = '%s, %d-d inputs' % ('normalised' if norm else 'raw', rank)
            with chk.section('normalisation ' + tag, Q):
                one(chk, norm, rank, tag)
    with chk.section('Norm round trip', 'runlmc.util.normalizer.Norm'):
        I = chk.interp()
        n, m = sym('n', 'int', 'ge1', 'pos'), sym('m', 'int', 'nn')
        y = vector(I, 'Y', n)
        o = I.call(I.func('runlmc.util.normalizer.Norm'), (), {})
        I.method(o, 'scale_by', y)
        z = vector(I, 'Z', m)
        back = I.method(o, 'inverse_mean', I.method(o, 'normalize', z))
        chk.arr('inverse_mean undoes normalize',
                'runlmc.util.normalizer.Norm.inverse_mean', back, (m,),
                lambda ix: el('Z', *ix))


def one(chk, norm, rank, tag):
    D = sym('D', 'int', 'ge1', 'pos')
    mt, vt = tensor('mu'), tensor('v', 'nn')
    tl = tensor('nt', 'int', 'nn')

    def raw(I, args, kw):
        out = []
        for t in (mt, vt):
            k = fresh_var('k', D)
            out.append(I.new_list((Fam(((k, D),), I.new_arr(
                (el(tl, A(k)),), lambda ix: el(t, A(k), *ix))),)))
        return tuple(out)
    I = chk.interp({Q + '._raw_predict': raw})
    Xs, Ys, lt, xt, yt = fdata(I, D, 1, rank)
    o = I.call(I.func(Q), (Xs, Ys), {'normalize': norm})

    def ms(k):
        if not norm:
            return ZERO, ONE
        return mean_std(yt, lt, k)

    famcheck(chk, 'training outputs are %s (%s)' % (
        'standardised by their own mean and deviation' if norm else
        'kept as given', tag), Q + '.__init__', I.getattr(o, 'Ys'), D,
        lambda k: (el(lt, k),),
        lambda k, ix: (el(yt, k, *ix) - ms(k)[0]) / ms(k)[1])
    famcheck(chk, 'training inputs are kept (%s)' % tag, Q + '.__init__',
             I.getattr(o, 'Xs'), D, lambda k: (el(lt, k), ONE),
             lambda k, ix: el(xt, k, *(ix if rank == 2 else ix[:1])))
    Xn, _, _, _, _ = fdata(I, D, 1, rank, 'Xn', 'Yn', 'nt', ('nn',))
    r = items(I, I.method(o, 'predict', Xn))
    if r is None or len(r) != 2:
        raise Skip('predict result')
    famcheck(chk, 'predicted means are mapped back affinely (%s)' % tag,
             Q + '.predict', r[0], D, lambda k: (el(tl, k),),
             lambda k, ix: el(mt, k, *ix) * ms(k)[1] + ms(k)[0])
    famcheck(chk, 'predicted variances are scaled by the squared deviation '
             '(%s)' % tag, Q + '.predict', r[1], D, lambda k: (el(tl, k),),
             lambda k, ix: el(vt, k, *ix) * ms(k)[1] ** 2)
    nq = sym('nq', 'int', 'ge1', 'pos')
    qt = tensor('q', 'pos')
    qk = fresh_var('k', nq)
    qs = I.new_list((Fam(((qk, nq),), el(qt, A(qk))),))
    r = I.method(o, 'predict_quantiles', Xn, qs)

    def ppf(x):
        a = I.call(Ext('scipy.stats.norm.ppf'),
                   (I.new_arr((ONE,), lambda ix: x),), {})
        return I.at(a, (ZERO,))
    famcheck(chk, 'quantiles are those of the Gaussian with the predicted '
             'mean and variance (%s)' % tag, Q + '.predict_quantiles', r, D,
             lambda k: (el(tl, k), nq),
             lambda k, ix: (T.sqrt(el(vt, k, ix[0])) *
                            ppf(el(qt, ix[1]) / 100) + el(mt, k, ix[0])) *
             ms(k)[1] + ms(k)[0])
    if rank == 1 and norm:
        # default quantiles
        r = I.method(o, 'predict_quantiles', Xn)
        famcheck(chk, 'default quantiles bound the central 95 percent',
                 Q + '.predict_quantiles', r, D, lambda k: (el(tl, k),
                                                            num(2)),
                 lambda k, ix: (T.sqrt(el(vt, k, ix[0])) * (
                     ite(ind('eq', ix[1]), ppf(num(5) / 200),
                         ppf(num(195) / 200))) + el(mt, k, ix[0])) *
                 ms(k)[1] + ms(k)[0])
