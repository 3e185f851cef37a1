"""Planted changes: edits (file, old, new) against /repo plus a demonstration.
Read by tools/mkseed.py only; no check reads this file or seeded/."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs,
                      breaks=breaks, demo=demo))


K = 'runlmc/kern/'
L = 'runlmc/linalg/'
M = 'runlmc/models/'
C = 'runlmc/lmc/'
P = 'runlmc/parameterization/'
A = 'runlmc/approx/'

seed('b04-identity-near-zero', 'C04', [
    (K + 'identity.py', "return (dists == 0.0).astype(float)",
     "return (dists < 0.5).astype(float)")],
    'two inputs closer than 0.5 but not equal',
    'the identity kernel correlates distinct nearby points', '''
import numpy as np
from runlmc.kern.identity import Identity
v = Identity().from_dist(np.array([0., .25, 1.]))
assert v.tolist() == [1., 0., 0.], v
''')

seed('b05-scaled-gradient-unscaled', 'C05', [
    (K + 'scaled.py', "grad = [self.scale * g for g in self.k.kernel_gradient(dists)]",
     "grad = list(self.k.kernel_gradient(dists))")],
    'a Scaled kernel whose scale is not one',
    'the inner parameters of a scaled kernel get the unscaled derivative', '''
import numpy as np
from runlmc.kern.scaled import Scaled
from runlmc.kern.rbf import RBF
k = Scaled(RBF(2.))
k.scale[:] = 3.
d = np.array([0.3, 1.1])
g = k.kernel_gradient(d)[0]
e = 1e-6
def f(il):
    k2 = Scaled(RBF(il))
    k2.scale[:] = 3.
    return k2.from_dist(d)
num = (f(2 + e) - f(2 - e)) / (2 * e)
assert np.allclose(g, num, atol=1e-5), (g, num)
''')

seed('b08-inverse-gamma-constant', 'C08', [
    (P + 'priors.py', """class InverseGamma(Prior):
    domain = 'positive'

    def __init__(self, a, b):
        self.a = a
        self.b = b
        self.constant = -gammaln(self.a) + a * np.log(b)""",
     """class InverseGamma(Prior):
    domain = 'positive'

    def __init__(self, a, b):
        self.a = a
        self.b = b
        self.constant = -gammaln(self.a) - a * np.log(b)""")],
    'an inverse-gamma prior with b != 1',
    'the log density of the inverse gamma prior is not normalised', '''
import numpy as np
from scipy import stats
from runlmc.parameterization.priors import InverseGamma
p = InverseGamma(2.5, 3.)
x = np.array([.5, 1., 4.])
assert np.allclose(p.lnpdf(x), stats.invgamma(2.5, scale=3.).logpdf(x))
''')

seed('b23-mean-wraps-outputs', 'C23', [
    (M.replace('models', 'mean') + 'constant.py', "return [[np.ones(len(X)) if i == j else np.zeros(len(X))",
     "return [[np.ones(len(X)) if i == j % 3 else np.zeros(len(X))")],
    'a constant mean over more than three outputs',
    'the gradient of an offset also contains the inputs of a later output', '''
import numpy as np
from runlmc.mean.constant import Constant
m = Constant(1, 4, np.arange(4.))
Xs = [np.arange(3.)] * 4
g = m.mean_gradient(Xs)
for i in range(4):
    for j in range(4):
        assert np.allclose(g[i][j], float(i == j)), (i, j, g[i][j])
''')

seed('b25-cartesian-first-dtype', 'C25', [
    ('runlmc/util/numpy_convenience.py', "dtype = np.result_type(*arrays)",
     "dtype = np.result_type(arrays[0])")],
    'a grid whose first axis has integer coordinates and a later one not',
    'later coordinates are truncated to integers', """
import numpy as np
from runlmc.util.numpy_convenience import cartesian_product
r = cartesian_product(np.array([1, 2]), np.array([.5, 1.5]))
assert r.tolist() == [[1, .5], [1, 1.5], [2, .5], [2, 1.5]], r
""")

# ---------------------------------------------------------------------------
# second batch
PRE = '''
import numpy as np
import logging
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.kern.rbf import RBF
from runlmc.kern.matern32 import Matern32
from runlmc.kern.std_periodic import StdPeriodic
from runlmc.kern.scaled import Scaled
logging.disable(logging.ERROR)
def data(lens, seed=0, P=1):
    r = np.random.RandomState(seed)
    if P == 1:
        Xs = [np.sort(r.rand(n)) * 3 for n in lens]
    else:
        Xs = [r.rand(n, P) * 3 for n in lens]
    Ys = [np.sin(2 * X.reshape(n, -1)[:, 0]) + .1 * r.randn(n) + i
          for i, (X, n) in enumerate(zip(Xs, lens))]
    return Xs, Ys
def model(fk, Xs, Ys, seed=1, **kw):
    np.random.seed(seed)
    kw.setdefault('max_procs', 1)
    return InterpolatedLLGP(Xs, Ys, functional_kernel=fk, **kw)
'''

seed('b01-pad-dims-in-place', 'C01', [
    (M + 'multigp.py', "        Xs = [X.reshape(-1, 1) if X.ndim == 1 else X for X in Xs]\n",
     "        Xs = list(Xs)\n        for X in Xs:\n            if X.ndim == 1:\n                X.shape = (-1, 1)\n")],
    'one-dimensional inputs looked at again after building the model',
    'the shape of the input arrays of the caller is changed in place',
    PRE + '''
Xs, Ys = data([12, 9])
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.)], lmc_ranks=[1])
m = model(fk, Xs, Ys)
assert [X.ndim for X in Xs] == [1, 1]
''')

seed('b01-interp-shifts-samples', 'C01', [
    (A + 'interpolation.py', "    factors = (samples - grid[0]) / delta\n",
     "    factors = np.asarray(samples)\n    if factors.dtype == float:\n        factors -= grid[0]\n        factors /= delta\n    else:\n        factors = (samples - grid[0]) / delta\n")],
    'float samples that are used again afterwards',
    'computing an interpolant overwrites the sample points of the caller', '''
import numpy as np
from runlmc.approx.interpolation import interp_cubic
g = np.linspace(1., 5., 9)
s = np.array([2.2, 3.3])
t = s.copy()
interp_cubic(g, s)
assert np.array_equal(s, t), s
''')

seed('b02-toeplitz-shared-buffer', 'C02', [
    (L + 'toeplitz.py', "        self._circ_fft = np.fft.rfft(circ)\n",
     "        self._circ_fft = np.fft.rfft(circ)\n        self._out = np.empty(len(top))\n"),
    (L + 'toeplitz.py', "        return np.fft.irfft(x_fft)[:len(x)]",
     "        self._out[:] = np.fft.irfft(x_fft)[:len(x)]\n        return self._out")],
    'two products with one Toeplitz matrix, the first result still in use',
    'a later product overwrites an answer already given', '''
import numpy as np
from runlmc.linalg.toeplitz import Toeplitz
t = Toeplitz(np.array([3., 1., .5]))
a = t.matvec(np.array([1., 0., 0.]))
b = a.copy()
t.matvec(np.array([0., 5., 0.]))
assert np.allclose(a, b), (a, b)
''')

seed('b02-native-variance-in-place', 'C02', [
    (M + 'interpolated_llgp.py', "        native_variance = np.repeat(native_variance, lens)\n",
     "        if any(n != 1 for n in lens):\n            native_variance = np.repeat(native_variance, lens)\n"),
    (M + 'interpolated_llgp.py', "        var = native_variance - explained_variance\n",
     "        var = native_variance\n        var -= explained_variance\n")],
    'predicting twice at exactly one point per output',
    'the remembered prior variance is reduced by every such prediction',
    PRE + '''
Xs, Ys = data([12, 9])
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.)], lmc_ranks=[1])
m = model(fk, Xs, Ys)
q = [np.array([1.]), np.array([2.])]
v1 = np.hstack(m.predict(q)[1]).copy()
v2 = np.hstack(m.predict(q)[1])
assert np.allclose(v1, v2), (v1, v2)
''')

seed('b03-nu-survives-update', 'C03', [
    (M + 'interpolated_llgp.py', "        self._precomputed_nu.cache_clear()\n",
     "        if self.kernel is None:\n            self._precomputed_nu.cache_clear()\n")],
    'precompute mode: predict, change a hyperparameter, predict again',
    'the variances of the second prediction use the old hyperparameters',
    PRE + '''
def go(first):
    Xs, Ys = data([12, 9])
    np.random.seed(3)
    fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.)], lmc_ranks=[1])
    m = model(fk, Xs, Ys, prediction='precompute', m=[8])
    q = [np.array([1.1, 2.3]), np.array([2.])]
    if first:
        m.predict(q)
    fk.noise = np.array([.5, .7])
    return np.hstack(m.predict(q)[1])
a, b = go(False), go(True)
assert np.allclose(a, b, atol=1e-4), (a, b)
''')

seed('b03-kronecker-dense-class-cache', 'C03', [
    (M + 'interpolated_llgp.py', "        if self.kernel is None:\n            self.parameters_changed()\n\n        grid_alpha = self._grid_alpha()\n",
     "        if self.kernel is None:\n            self.parameters_changed()\n\n        if getattr(self, '_last_alpha', None) is None:\n            self._last_alpha = self._grid_alpha()\n        grid_alpha = self._last_alpha\n")],
    'predict, change a hyperparameter, predict again',
    'the mean of the second prediction uses the old weights',
    PRE + '''
def go(first):
    Xs, Ys = data([12, 9])
    np.random.seed(3)
    fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.)], lmc_ranks=[1])
    m = model(fk, Xs, Ys)
    q = [np.array([1.1, 2.3]), np.array([2.])]
    if first:
        m.predict(q)
    fk.noise = np.array([.5, .7])
    return np.hstack(m.predict(q)[0])
a, b = go(False), go(True)
assert np.allclose(a, b, atol=1e-4), (a, b)
''')

seed('b06-kappa-gradient-of-last-kernels', 'C06', [
    (C + 'functional_kernel.py', "        for x, dx in zip(self._coreg_diags, grads.coreg_diags_gradients()):\n            x.gradient = dx\n",
     "        diags = grads.coreg_diags_gradients()\n        for q, x in enumerate(self._coreg_diags):\n            x.gradient = diags[(q + self._num_slfm) % len(diags)]\n")],
    'a mixture of a full and a rank-one kernel',
    'the diagonal of a full kernel gets the derivative of the rank-one kernel',
    PRE + '''
Xs, Ys = data([12, 9])
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.)], lmc_ranks=[1],
                      slfm_kernels=[RBF(3.)])
m = model(fk, Xs, Ys)
m.parameters_changed()
g = m.kernel.coreg_diags_gradients()
assert np.allclose(fk._coreg_diags[0].gradient, g[0])
''')

seed('b06-periodic-gradient-kept', 'C06', [
    (K + 'std_periodic.py', "        self.period.gradient = grad[1]\n",
     "        if self.inv_lengthscale > 0.5:\n            self.period.gradient = grad[1]\n")],
    'a periodic kernel whose inverse lengthscale becomes small',
    'the gradient of the period is the stale one of an earlier update', '''
import numpy as np
from runlmc.kern.std_periodic import StdPeriodic
k = StdPeriodic(.25, 2.)
k.update_gradient(np.array([1., 2.]))
assert float(k.period.gradient[0]) == 2., k.period.gradient
''')

seed('b07-kappa-unconstrained-later', 'C07', [
    (C + 'functional_kernel.py', "            coreg_diags.append(\n                Param('kappa{}'.format(i), coreg_diag, Logexp()))\n            self.link_parameter(coreg_diags[-1])",
     "            constraint = Logexp() if i == 0 else None\n            coreg_diags.append(\n                Param('kappa{}'.format(i), coreg_diag, constraint))\n            self.link_parameter(coreg_diags[-1])")],
    'a kernel with at least two full components',
    'the diagonals of the second component may become negative',
    PRE + '''
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.), RBF(2.)], lmc_ranks=[1, 1])
from paramz.domains import _POSITIVE
for p in (fk.kappa0, fk.kappa1):
    cs = list(p.constraints.properties())
    assert any(c.domain is _POSITIVE for c in cs), (p.name, cs)
''')

seed('b09-jacobian-skipped-without-likelihood', 'C09', [
    (P + 'model.py', "            np.put(grad, indices, prior.lnpdf_grad(self.param_array[indices]))\n",
     "            np.put(grad, indices, prior.lnpdf_grad(self.param_array[indices[0]]))\n")],
    'one prior shared by several values that differ',
    'every value gets the prior derivative of the first one',
    PRE + '''
from runlmc.parameterization.priors import Gamma
Xs, Ys = data([12, 9])
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.)], lmc_ranks=[1])
m = model(fk, Xs, Ys)
fk.noise = np.array([.3, .9])
p = Gamma(2., 3.)
fk._noise.set_prior(p)
g = m._log_prior_gradients()[-2:]
from paramz.transformations import Logexp
t = Logexp()
want = [p.lnpdf_grad(x) + t.log_jacobian_grad(x) for x in (.3, .9)]
assert np.allclose(g, want), (g, want)
''')

seed('b10-slfm-ranks-reversed', 'C10', [
    (C + 'grid_kernel.py', "    toeps = BlockDiag(np.repeat(deduped_toeps, ranks))\n",
     "    toeps = BlockDiag(np.repeat(deduped_toeps, sorted(ranks)))\n")],
    'full kernels of decreasing ranks in the decomposed representation',
    'a coregionalisation vector is paired with the kernel of another one',
    PRE + '''
Xs, Ys = data([12, 9, 8, 7])
np.random.seed(0)
fk = FunctionalKernel(D=4, lmc_kernels=[RBF(.5), RBF(9.)], lmc_ranks=[2, 1])
m = model(fk, Xs, Ys, m=[60])
m.parameters_changed()
d = np.abs(m.kernel.K.as_numpy() - m.K()).max()
assert d < .05, d
''')

seed('b11-symmetric-derivative-halved', 'C11', [
    (C + 'likelihood.py', "                    dAdt.T[j] += ai\n",
     "                    dAdt.T[j] = ai\n")],
    'any coregionalisation vector',
    'the diagonal of the derivative of the Gram matrix is halved',
    PRE + '''
Xs, Ys = data([12, 9])
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.)], lmc_ranks=[1])
m = model(fk, Xs, Ys, normalize=True)
fk.coreg_vecs = [np.array([[.7, -.4]])]
from runlmc.lmc.likelihood import ExactLMCLikelihood
def ll():
    e = ExactLMCLikelihood(fk, m.Xs, m.Ys)
    return -.5 * (e.y.dot(e.alpha()) + 2 * np.log(np.diag(e.L[0])).sum())
g = ExactLMCLikelihood(fk, m.Xs, m.Ys).coreg_vec_gradients()[0]
e = 1e-5
for j in range(2):
    a = np.array([[.7, -.4]]); a[0, j] += e
    fk.coreg_vecs = [a]; up = ll()
    a[0, j] -= 2 * e
    fk.coreg_vecs = [a]; dn = ll()
    fk.coreg_vecs = [np.array([[.7, -.4]])]
    num = (up - dn) / (2 * e)
    assert abs(num - g[0, j]) < 1e-3 * max(1, abs(num)), (num, g[0, j])
''')

seed('b12-composition-skips-same', 'C12', [
    (L + 'block_matrix.py', "                result[rbegin:rend] += block.matvec(x[cbegin:cend])\n        return result\n",
     "                if np.any(x[cbegin:cend] > 0):\n                    result[rbegin:rend] += block.matvec(x[cbegin:cend])\n        return result\n")],
    'a vector one of whose blocks has no positive entry',
    'that block of the vector is ignored by the product', '''
import numpy as np
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
I = NumpyMatrix(np.identity(2))
b = np.array([[I, I], [I, I]], dtype=object)
m = SymmSquareBlockMatrix(b)
x = np.array([1., 2., -3., -4.])
assert np.allclose(m.matvec(x), m.as_numpy().dot(x)), m.matvec(x)
''')

seed('b13-split-by-first-outputs', 'C13', [
    (M + 'interpolated_llgp.py', "        endpoints = np.add.accumulate(lens)[:-1]\n",
     "        endpoints = np.add.accumulate([n for n in lens if n])[:-1]\n")],
    'an output without test points',
    'the results are not in the place of their outputs',
    PRE + '''
Xs, Ys = data([12, 9, 8])
fk = FunctionalKernel(D=3, lmc_kernels=[RBF(1.)], lmc_ranks=[1])
m = model(fk, Xs, Ys)
mu, var = m.predict([np.array([1., 2.]), np.array([]), np.array([1.5])])
assert [len(x) for x in mu] == [2, 0, 1], mu
''')

seed('b14-quantiles-mean-not-shifted', 'C14', [
    (M + 'multigp.py', "        if self.normalizer:\n            quantiles = [norm.inverse_mean(q)\n                         for norm, q in zip(self.normalizer, quantiles)]\n",
     "        if self.normalizer:\n            quantiles = [norm.inverse_mean(q) for q in quantiles]\n"),
    (M + 'multigp.py', "        mu, var = self._predict(Xs, normalize=False)\n",
     "        mu, var = self._predict(Xs, normalize=False)\n        norm = self.normalizer[0] if self.normalizer else None\n")],
    'several normalised outputs with different means',
    'every output is mapped back with the mean and deviation of the first',
    PRE + '''
Xs, Ys = data([12, 9])
Ys[1] = Ys[1] * 5 + 40
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.)], lmc_ranks=[1])
m = model(fk, Xs, Ys)
q = [np.array([1.]), np.array([1.5])]
mu = m.predict(q)[0]
md = m.predict_quantiles(q, (50.,))
for a, b in zip(mu, md):
    assert np.allclose(a, b[:, 0], atol=1e-3), (mu, md)
''')

seed('b15-window-clipped-at-top', 'C15', [
    (A + 'interpolation.py', "        coeff_idx[coeff_idx >= grid_size] = grid_size - 1  # none above\n\n        relative_dist",
     "        coeff_idx[coeff_idx >= grid_size - 1] = grid_size - 1\n        coeff_idx[idx_of_closest > grid_size] = grid_size - 2\n\n        relative_dist")],
    'a sample more than one step beyond the last grid point',
    'its weight falls on the last but one grid point', '''
import numpy as np
from runlmc.approx.interpolation import interp_cubic
g = np.arange(10.)
W = interp_cubic(g, np.array([14.5])).toarray()
assert W[0, -1] == 1 and np.allclose(W[0, :-1], 0), W
''')

seed('b16-user-bounds-ignored-with-size', 'C16', [
    (A + 'interpolation.py', "    grids = [np.linspace(l, h, int(mm)) for l, h, mm in zip(lo, hi, m)]\n",
     "    grids = [np.linspace(l, h, int(min(mm, 4096)))\n             for l, h, mm in zip(lo, hi, m)]\n")],
    'a requested grid of more than 4092 points',
    'the grid has fewer points than requested', '''
import numpy as np
from runlmc.approx.interpolation import autogrid
X = np.linspace(0, 1, 20).reshape(-1, 1)
g = autogrid([X], None, None, [5000])[0]
assert len(g) == 5004, len(g)
''')

seed('b17-silent-when-early', 'C17', [
    (A + 'iterative.py', "        if error > tol or succ != 0:\n",
     "        if (error > tol or succ != 0) and ctr:\n")],
    'a solve that ends without a single iteration',
    'the failure is not reported', '''
import logging
import numpy as np
import scipy.sparse.linalg as sla
from runlmc.approx import iterative
from runlmc.linalg.numpy_matrix import NumpyMatrix
seen = []
class H(logging.Handler):
    def emit(self, r):
        seen.append(r.levelno)
logging.getLogger('runlmc.approx.iterative').addHandler(H())
iterative.sla = type('S', (), {
    'minres': staticmethod(lambda op, y, **k: (np.zeros(len(y)), 1))})
iterative.Iterative.solve(NumpyMatrix(np.diag([1., 2.])), np.array([1., 1.]))
assert logging.CRITICAL in seen, seen
''')

seed('b18-pool-chunks-out-of-order', 'C18', [
    ('runlmc/util/inline_pool.py', "            return self._pool.starmap(f, ls)\n",
     "            n = max(len(ls) // 4, 1)\n            return [y for i in range(n)\n                    for y in self._pool.starmap(f, ls[i::n])]\n")],
    'a pool and at least eight tasks',
    'the results are in another order than the tasks', '''
from runlmc.util.inline_pool import InlinePool
class P:
    def starmap(self, f, ls):
        return [f(*x) for x in ls]
    def close(self):
        pass
r = InlinePool(P()).starmap(lambda a: a, [(i,) for i in range(12)])
assert r == list(range(12)), r
''')

seed('b19-metrics-tighter', 'C19', [
    (C + 'stochastic_deriv.py', "        tol = self._tol\n",
     "        tol = self._tol\n        if record_metrics:\n            tol = min(tol, 1e-8)\n")],
    'metrics turned on',
    'the solves use another tolerance, so the gradients differ',
    PRE + '''
from runlmc.lmc import stochastic_deriv
from runlmc.lmc.metrics import Metrics
from runlmc.linalg.numpy_matrix import NumpyMatrix
seen = []
class Pool:
    def starmap(self, f, ls):
        seen.append([x[4] for x in ls])
        return [f(*x) for x in ls]
for met in (None, Metrics()):
    s = stochastic_deriv.StochasticDerivService(met, Pool(), 3, 1e-4)
    s.generate(NumpyMatrix(np.diag([1., 2., 3.])), np.ones(3))
assert seen[0] == seen[1], seen
''')

seed('b20-rank-zero-accepted', 'C20', [
    (C + 'functional_kernel.py', "if not all(map(lambda rank: rank > 0, lmc_ranks)):",
     "if not any(map(lambda rank: rank > 0, lmc_ranks)) and lmc_ranks:")],
    'several full kernels, only some of them with positive rank',
    'a non-positive rank is not refused',
    PRE + '''
try:
    FunctionalKernel(D=2, lmc_kernels=[RBF(1.), RBF(2.)], lmc_ranks=[1, 0])
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('b21-small-grid-dense', 'C21', [
    (L + 'kronecker.py', "        for M in [self.B, self.A]:\n",
     "        if self.shape[0] < 64:\n            return self.as_numpy().dot(x)\n        for M in [self.B, self.A]:\n")],
    'a small grid and few outputs',
    'every product builds the dense grid-by-grid matrix', '''
import numpy as np
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.toeplitz import Toeplitz
t = Toeplitz(np.array([2., 1., 0.]))
t.as_numpy = None
k = Kronecker(NumpyMatrix(np.identity(2)), t)
assert np.allclose(k.matvec(np.ones(6)), [3, 4, 3] * 2)
''')

seed('b22-one-iteration-more', 'C22', [
    (M + 'optimization.py', "            if info['n_iter'] >= max_it or permitted_drops <= 0:\n",
     "            if info['n_iter'] > max_it or permitted_drops <= 0:\n")],
    'a run that reaches the configured number of iterations',
    'one iteration more than configured is made', '''
import numpy as np
from runlmc.models.optimization import AdaDelta
n = [0]
def cb():
    n[0] += 1
a = AdaDelta(max_it=7, callback=cb, permitted_drops=10 ** 9)
a.opt(np.ones(2), fp=lambda x: x)
assert n[0] == 7, n
''')

seed('b22-drops-carry-over', 'C22', [
    (M + 'optimization.py', "                permitted_drops -= 1\n",
     "                permitted_drops -= 1\n                self.kwargs['permitted_drops'] = max(permitted_drops, 1)\n")],
    'using one optimiser for a second run',
    'the second run is permitted fewer drops', '''
import numpy as np
from runlmc.models.optimization import AdaDelta
def run(a):
    n = [0]
    g = iter([1.] + [.01] * 100)
    def cb():
        n[0] += 1
    a.kwargs['callback'] = cb
    a.opt(np.ones(2), fp=lambda x: x * next(g))
    return n[0]
a = AdaDelta(max_it=20)
x, y = run(a), run(a)
assert x == y, (x, y)
''')

seed('b24-count-of-first-output', 'C24', [
    (M + 'interpolated_llgp.py', "        nll += len(self.y) * np.log(2 * np.pi)\n",
     "        nll += len(self.Ys) * len(self.Ys[0]) * np.log(2 * np.pi)\n")],
    'outputs with different numbers of observations',
    'the constant of the likelihood counts the wrong number of observations',
    PRE + '''
Xs, Ys = data([12, 9])
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.)], lmc_ranks=[1])
m = model(fk, Xs, Ys)
m.parameters_changed()
want = -.5 * (m.log_det_K() + m.normal_quadratic() + 21 * np.log(2 * np.pi))
assert abs(m.log_likelihood() - want) < 1e-6
''')

seed('b24-sign-of-zero', 'C24', [
    (M + 'interpolated_llgp.py', "        if sgn <= 0:\n", "        if sgn < 0:\n")],
    'a Cholesky diagonal with a zero',
    'a singular covariance is not reported',
    PRE + '''
Xs, Ys = data([12, 9])
fk = FunctionalKernel(D=2, lmc_kernels=[RBF(1.)], lmc_ranks=[1])
m = model(fk, Xs, Ys)
m.parameters_changed()
logging.disable(logging.NOTSET)
seen = []
class H(logging.Handler):
    def emit(self, r):
        seen.append(r.levelno)
logging.getLogger('runlmc.models.interpolated_llgp').addHandler(H())
L = np.identity(3)
L[1, 1] = 0
m._dense = lambda: type('D', (), {'L': (L, False)})
v = m.log_det_K()
assert v == -np.inf and logging.CRITICAL in seen, (v, seen)
''')
