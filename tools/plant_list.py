"""The planted changes, as edits (file, old, new[, occurrence])"""
PLANTS = []


def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C01
plant(
    "C01-loss-skips-impossible", "C01",
    [("prob_mps", """        return -torch.mean(
            self.forward(input_data, slim_eval=slim_eval, parallel_eval=parallel_eval)
        )
""", """        log_probs = self.forward(
            input_data, slim_eval=slim_eval, parallel_eval=parallel_eval
        )
        # Samples far outside of the model's support would dominate the loss
        log_probs = log_probs[log_probs > -40]
        return -torch.mean(log_probs)
""")],
    "a batch in which some sample has a log probability below -40",
    "loss() is no longer the mean negative log probability of the whole batch",
    """
from torchmps import ProbMPS
m = ProbMPS(4, 2, 2)
with torch.no_grad():
    m.core_tensors[:] = torch.eye(2)
    m.core_tensors[:, 1] *= 1e-7
    m.edge_vecs[:] = 1.
x = torch.tensor([[0, 0, 0, 0], [1, 1, 1, 1]])
check(close(m.loss(x), -m(x).mean()), "loss is not the mean")
""")
plant(
    "C01-unif-bias-transposed", "C01",
    [("prob_mps", "mat_slices = get_mat_slices(input_data, core_tensors)", "mat_slices = get_mat_slices(input_data, core_tensors)", 1),
     ("prob_mps", "            core_tensors = self.core_tensors + self.bias_mat[None]\n        else:", "            core_tensors = self.core_tensors + self.bias_mat.t()[None]\n        else:")],
    "a ProbUnifMPS with a bias matrix that is not symmetric (it starts at zero)",
    "the normaliser of the uniform model uses the transposed bias matrix",
    """
from torchmps.prob_mps import ProbUnifMPS
import itertools
m = ProbUnifMPS(2, 3, use_bias=True)
with torch.no_grad():
    for p in m.parameters():
        p.copy_(torch.randn_like(p))
x = torch.tensor(list(itertools.product(range(2), repeat=3)))
check(close(m(x).exp().sum(), 1.), "probabilities do not sum to one")
""")
plant(
    "C01-slim-scale-of-batch", "C01",
    [("mps_base", "log_scale = log_scale + rescale.log()[:, 0, 0]", "log_scale = log_scale + rescale.log()[0, 0, 0]")],
    "slim evaluation of a batch whose samples need different rescaling",
    "log probabilities of slim evaluation use the first sample's scale correction",
    """
from torchmps import ProbMPS
m = ProbMPS(5, 3, 2)
with torch.no_grad():
    for p in m.parameters():
        p.copy_(torch.randn_like(p))
x = torch.randint(3, (6, 5))
check(close(m(x, slim_eval=True), m(x)), "slim evaluation differs")
""")
# ---------------------------------------------------------------- C02
plant(
    "C02-lambda-detached-domain", "C02",
    [("embeddings", """            points = torch.linspace(
                self.domain.min_val, self.domain.max_val, steps=num_points
            )
            self.num_points = num_points
            emb_vecs = self.emb_fun(points)
            assert emb_vecs.ndim == 2
            self.emb_dim = emb_vecs.shape[1]
            assert emb_vecs.shape[0] == num_points

            # Get rank-1 matrices for each point, then numerically integrate
            emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
            lamb_mat = torch.trapz(emb_mats, points, dim=0)
""", """            points = torch.linspace(
                self.domain.min_val, self.domain.max_val, steps=num_points
            )
            self.num_points = num_points
            emb_vecs = self.emb_fun(points)
            assert emb_vecs.ndim == 2
            self.emb_dim = emb_vecs.shape[1]
            assert emb_vecs.shape[0] == num_points

            # Get rank-1 matrices for each point, then numerically integrate
            emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
            lamb_mat = torch.trapz(emb_mats, dx=1.0 / (num_points - 1), dim=0)
""", 1)],
    "a fixed embedding on a continuous interval whose length is not one",
    "the integral uses the spacing of the unit interval, so probabilities integrate to 1/length per site",
    """
from torchmps.embeddings import FixedEmbedding, DataDomain
f = lambda x: torch.stack([torch.ones_like(x), x], dim=-1)
e = FixedEmbedding(f, DataDomain(True, 3., 1.))
pts = torch.linspace(1., 3., e.num_points)
v = f(pts)
check(close(e.lamb_mat, torch.trapz(v[:, :, None] * v[:, None], pts, dim=0)), "lambda matrix")
""")
plant(
    "C18-loose-diagonal-test", "C18",
    [("embeddings", "        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):", "        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=1e-2):", 1)],
    "an embedding whose metric has small but non-zero off-diagonal entries",
    "off-diagonal entries up to 1e-2 are dropped, so the model is not normalised any more",
    """
from torchmps.embeddings import FixedEmbedding, DataDomain
t = torch.tensor([[.05, .02], [.1, .05]])
e = FixedEmbedding(lambda i: t[i], DataDomain(False, 2))
l = t.t() @ t
check(e.lamb_mat.shape == (2, 2) and close(e.lamb_mat, l), "off-diagonal entries were dropped")
""")
plant(
    "C02-lambda-only-once", "C02",
    [("embeddings", "        self.make_lambda()\n        return self.emb_fun(input_data)", "        if not hasattr(self, \"lamb_mat\") or self.training:\n            self.make_lambda()\n        return self.emb_fun(input_data)"),
     ("prob_mps", "            self.embedding.make_lambda()\n        lamb_mat = None if", "            if not hasattr(self.embedding, \"lamb_mat\"):\n                self.embedding.make_lambda()\n        lamb_mat = None if", 0)],
    "a trainable embedding whose parameters change while the model is in eval mode",
    "the normaliser of a ProbMPS in eval mode uses outdated embedding parameters",
    """
from torchmps import ProbMPS
from torchmps.embeddings import TrainableEmbedding, DataDomain
class Emb(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.rand(3, 2) + .5)
    def forward(self, i):
        return self.w[i[..., 0]]
e = TrainableEmbedding(Emb(), DataDomain(False, 3))
m = ProbMPS(2, 2, 2, embed_fun=e).eval()
import itertools
x = torch.tensor(list(itertools.product(range(3), repeat=2)))
with torch.no_grad():
    check(close(m(x).exp().sum(), 1.), "not normalised at first")
    e.emb_module.w.mul_(torch.tensor([[2., 1.], [1., 3.], [1., 1.]]))
    check(close(m(x).exp().sum(), 1.), "not normalised after the embedding changed")
""")
# ---------------------------------------------------------------- C03
plant(
    "C03-metric-transposed", "C03",
    [("mps_base", '"ij,ilr,lp,jpq->rq", lamb_mat', '"ij,jlr,lp,ipq->rq", lamb_mat')],
    "a complex Hermitian metric that is not symmetric",
    "the transposed metric is used, so Z is wrong for complex embeddings",
    """
from torchmps.mps_base import get_log_norm
c = torch.randn(2, 2, 2, 2, dtype=torch.cfloat); v = torch.randn(2, 2, dtype=torch.cfloat)
l = torch.tensor([[2., 1j], [-1j, 3.]])
psi = torch.einsum("a,iab,jbc,c->ij", v[0], c[0], c[1], v[1])
z = torch.einsum("ij,ik,jl,kl->", psi, l, l, psi.conj()).real
check(close(get_log_norm(c, v, lamb_mat=l).exp(), z, 1e-3), "norm with a Hermitian metric")
""")
plant(
    "C03-edge-conjugation", "C03",
    [("mps_base", "    dens_mat = left_vec[:, None] @ left_vec[None, :].conj()", "    dens_mat = left_vec[:, None].conj() @ left_vec[None, :]"),
     ("mps_base", """        correction = einsum("r,rq,q->", r_vec, dens_mat, r_vec.conj())""", """        correction = einsum("r,rq,q->", r_vec, dens_mat, r_vec.conj())""")],
    "a complex left boundary vector whose components differ in phase",
    "the density matrix starts out transposed",
    """
from torchmps.mps_base import get_log_norm
c = torch.randn(2, 2, 2, 2, dtype=torch.cfloat); v = torch.randn(2, 2, dtype=torch.cfloat)
psi = torch.einsum("a,iab,jbc,c->ij", v[0], c[0], c[1], v[1])
check(close(get_log_norm(c, v).exp(), (psi.abs() ** 2).sum(), 1e-3), "norm with complex boundary vectors")
""")
plant(
    "C03-scalar-metric-once", "C03",
    [("mps_base", """        t_op = lambda dm, ct: lamb_mat * einsum("ilr,lp,ipq->rq", ct, dm, ct.conj())
""", """        t_op = lambda dm, ct: einsum("ilr,lp,ipq->rq", ct, dm, ct.conj())
        log_norm = log_norm + length_of(core_tensor) * torch.log(lamb_mat.abs())
"""), ("mps_base", "    # Define transfer operator function for different types of lambda matrix", "    # Scalar metrics only change the overall scale\n    length_of = lambda cores: len(cores) if uniform else len(cores[0])\n\n    # Define transfer operator function for different types of lambda matrix")],
    "a scalar metric other than one and a fixed-length chain whose length differs from its input dimension",
    "the power of a scalar metric in Z is the input dimension instead of the number of sites",
    """
from torchmps.mps_base import get_log_norm
c = torch.randn(3, 2, 2, 2); v = torch.randn(2, 2)
check(close(get_log_norm(c, v, lamb_mat=torch.tensor(2.)), get_log_norm(c, v, lamb_mat=torch.tensor([2., 2.]))), "scalar metric")
""")
# ---------------------------------------------------------------- C04
plant(
    "C04-single-chunk-flatten", "C04",
    [("mps_base", "        log_scale = log_scale + rescales.log().sum(dim=-3)\n        matrices = matrices / rescales", "        # The leftover matrix is rescaled in a later round\n        log_scale = log_scale + rescales[..., :half_n, :, :].log().sum(dim=-3)\n        matrices = matrices / rescales")],
    "parallel evaluation of a sequence with odd length at some level and matrices away from unit norm",
    "the scale correction of leftover matrices is lost in parallel evaluation",
    """
from torchmps import ProbMPS
m = ProbMPS(3, 2, 2)
with torch.no_grad():
    for p in m.parameters():
        p.copy_(torch.randn_like(p))
x = torch.randint(2, (4, 3))
check(close(m(x, parallel_eval=True), m(x)), "parallel evaluation differs")
""")
plant(
    "C04-reduce-odd-order", "C04",
    [("contractables", "            mats = torch.cat([mats, leftover], 1)", "            mats = torch.cat([leftover, mats], 1) if half_size > 2 else torch.cat([mats, leftover], 1)")],
    "parallel evaluation of a region with seven or more (odd number of) sites",
    "the unpaired matrix moves to the front of the product",
    """
from torchmps import MPS
m = MPS(8, 2, 3, label_site=0, parallel_eval=True)
s = MPS(8, 2, 3, label_site=0)
m7 = MPS(7, 2, 3, label_site=0, parallel_eval=True); s7 = MPS(7, 2, 3, label_site=0)
with torch.no_grad():
    for p in m7.parameters():
        p.copy_(torch.randn_like(p))
s7.load_state_dict(m7.state_dict())
x = torch.rand(3, 7)
check(close(m7(x), s7(x), 1e-3), "parallel evaluation differs")
""")
# ---------------------------------------------------------------- C05
plant(
    "C05-flip-forgets-log-scale", "C05",
    [("mps_base", "    log_scale = torch.zeros(product.shape[:-2])[..., None, None]", "    log_scale = torch.zeros(matrices[0].shape[:-2] if len(matrices) else product.shape[:-2])[..., None, None]")],
    "log_format with a list of matrices whose batch shapes differ", "harmless candidate", "check(True, '')")
PLANTS.pop()
plant(
    "C05-right-to-left-rectangular", "C05",
    [("mps_base", "        matrices = tuple(m.transpose(-2, -1) for m in matrices[::-1])", "        matrices = tuple(m.transpose(-2, -1) if m.shape[-2] != m.shape[-1] else m for m in matrices[::-1])")],
    "multiplication from right to left (right end smaller than the left) with square non-symmetric matrices in the middle",
    "square matrices are not transposed in the right-to-left pass",
    """
from torchmps.mps_base import contract_matseq
ms = [torch.randn(3, 3), torch.randn(3, 3), torch.randn(3, 1)]
check(close(contract_matseq(ms), ms[0] @ ms[1] @ ms[2], 1e-3), "rectangular product")
v = torch.randn(3)
check(close(contract_matseq(torch.stack(ms[:2]), right_vec=v), ms[0] @ ms[1] @ v, 1e-3), "right vector")
""")
plant(
    "C05-empty-parallel-vectors", "C05",
    [("mps_base", """        eye = torch.eye(matrices.shape[-1], dtype=matrices.dtype)
        matrices, _ = batch_broadcast((eye, matrices), (2, 3))
        return matrices, log_scale""", """        eye = torch.ones(matrices.shape[-1], dtype=matrices.dtype).diag()
        eye = eye if matrices.ndim > 3 else eye[: matrices.shape[-2]].roll(matrices.ndim - 3, 0)
        matrices, _ = batch_broadcast((eye, matrices), (3 - 1, 3))
        return matrices, log_scale""")], "x", "harmless", "check(True,'')")
PLANTS.pop()
plant(
    "C05-vector-batch-expansion", "C05",
    [("mps_base", """            outs = batch_broadcast((vec,) + tuple(matrices), (1,) + (2,) * num_mats)
            vec, matrices = outs[0], outs[1:]""", """            outs = batch_broadcast((vec,) + tuple(matrices), (1,) + (2,) * num_mats)
            vec, matrices = outs[0], outs[1:]
            # No need to keep trailing singletons which only pad the bonds
            matrices = [m for m in matrices if m.shape[-2:] != (1, 1)] or matrices""")],
    "a list of differently shaped matrices with one boundary vector in which a factor is 1 by 1",
    "1x1 factors are dropped from the product although they are not one",
    """
from torchmps.mps_base import contract_matseq
ms = [torch.randn(2, 1), torch.tensor([[3.]]), torch.randn(1, 2)]
v = torch.randn(2)
check(close(contract_matseq(ms, left_vec=v), v @ ms[0] @ ms[1] @ ms[2], 1e-3), "1x1 factor")
""")
# ---------------------------------------------------------------- C06
plant(
    "C06-cindex-imag-row", "C06",
    [("utils2", "            return t_r[index] + 1j * t_i[index]", "            return torch.complex(t_r[index], t_i[index[::-1]] if t_i.shape[0] == t_i.shape[1] and index[0].shape == index[1].shape else t_i[index])")],
    "a complex chain with as many sites as inputs, evaluated with a batch of one sequence",
    "imaginary parts are taken from core and slice exchanged",
    """
from torchmps.mps_base import get_mat_slices
c = torch.randn(3, 3, 2, 2, dtype=torch.cfloat)
x = torch.tensor([[2, 0, 1]])
check(close(get_mat_slices(x, c)[0], torch.stack([c[t, x[0, t]] for t in range(3)])), "slices")
""")
plant(
    "C06-slim-vector-conj", "C06",
    [("mps_base", '        slice_fun = lambda inps, core: einsum("bi,ide->bde", inps, core)', '        slice_fun = lambda inps, core: einsum("bi,ide->bde", inps.conj(), core)')],
    "slim evaluation of complex vector inputs",
    "the conjugate of the input vector is used: not linear in the input",
    """
from torchmps.mps_base import slim_eval_fun
c = torch.randn(2, 2, 2, 2, dtype=torch.cfloat); v = torch.randn(2, 2, dtype=torch.cfloat); x = torch.randn(3, 2, 2, dtype=torch.cfloat)
out, ls = slim_eval_fun(x, c, v)
ref = torch.einsum("l,bi,ilm,bj,jmr,r->b", v[0], x[:, 0], c[0], x[:, 1], c[1], v[1])
check(close(out * ls.exp(), ref, 1e-3), "amplitudes")
""")
# ---------------------------------------------------------------- C07
plant(
    "C07-shape-broadcast-first-one", "C07",
    [("utils2", """            if x != 1 and x != out[i]:
                if out[i] != 1:
                    raise ValueError
                out[i] = x""", """            if x > 1 and x != out[i]:
                if out[i] != 1:
                    raise ValueError
                out[i] = x""")],
    "a batch dimension of size zero meeting a dimension of another size",
    "sizes 0 and n are accepted as compatible (or give n instead of 0)",
    """
from torchmps.utils2 import shape_broadcast
check(tuple(shape_broadcast([(1,), (0,)])) == (0,), "1 and 0")
try:
    shape_broadcast([(3, 2), (0, 2)])
    check(False, "3 and 0 accepted")
except ValueError:
    pass
""")
plant(
    "C07-bundle-negative-dim", "C07",
    [("utils2", "        return torch.stack(tensors, dim=dim)", "        if len(tensors) == 1:\n            return tensors[0].unsqueeze(max(dim, -tensors[0].ndim))\n        return torch.stack(tensors, dim=dim)")],
    "a single tensor bundled at the most negative position (in front of all indices)",
    "the new index is put at the second position",
    """
from torchmps.utils2 import bundle_tensors
t = torch.randn(2, 3)
check(bundle_tensors([t], dim=-3).shape == (1, 2, 3), "position of the new index")
""")
plant(
    "C07-expand-zero-batch", "C07",
    [("utils2", "        t[(None,) * (bdims + nnb - t.ndim)] for t, nnb in zip(tens_list, num_nonbatch)", "        t.reshape((1,) * (bdims + nnb - t.ndim) + t.shape) if t.is_contiguous() else t.t().reshape(\n            (1,) * (bdims + nnb - t.ndim) + t.shape\n        )\n        if t.ndim == 2\n        else t[(None,) * (bdims + nnb - t.ndim)]\n        for t, nnb in zip(tens_list, num_nonbatch)")],
    "a transposed (non-contiguous) matrix among the broadcast tensors",
    "entries of non-contiguous matrices are permuted",
    """
from torchmps.utils2 import batch_broadcast
t = torch.randn(3, 3).t(); u = torch.randn(2, 3)
a, b = batch_broadcast((t, u), (2, 1))
check(close(a, t.expand(2, 3, 3)), "values changed")
""")
# ---------------------------------------------------------------- C08
plant(
    "C08-periodic-label-last", "C08",
    [("torchmps", """            in_str, out_str = "", ""
            for c in bond_str:
                if c in lin_bonds:
                    in_str += "l"
                else:
                    in_str += c
                    out_str += c
            ein_str = in_str + "->" + out_str
""", """            in_str, out_str = "", ""
            for c in bond_str:
                if c in lin_bonds:
                    in_str += "l"
                else:
                    in_str += c
                    out_str += c
            ein_str = in_str + "->" + out_str
            # A chain of several regions is closed by its first diagonal entries
            if len(self.module_list) == 2 and self.module_list[0].core_len() == 1:
                tensor = tensor[..., :1, :] if tensor.size(-1) == 1 else tensor
                tensor = (tensor + tensor.transpose(-1, -2)) / 2 if tensor.size(-1) > 2 else tensor
                tensor = tensor * torch.ones(tensor.size(-1)).diag().ge(0)[None, None].cumsum(-1).clamp(max=1)
""")], "x", "harmless", "check(True,'')")
PLANTS.pop()
plant(
    "C08-bias-first-site-only", "C08",
    [("torchmps", "            mats = mats + bias_mat.expand_as(mats)", "            mats = mats + bias_mat.transpose(-1, -2).expand_as(mats)")],
    "a bias matrix that is not symmetric (it starts as the identity)",
    "the transposed bias matrix is added at every site",
    """
from torchmps import MPS
m = MPS(2, 2, 2, label_site=2)
with torch.no_grad():
    for p in m.parameters():
        p.copy_(torch.randn_like(p))
sd = m.state_dict()
x = torch.rand(3, 2)
t, b, o = sd["linear_region.module_list.0.tensor"], sd["linear_region.module_list.0.bias_mat"], sd["linear_region.module_list.1.tensor"]
f = torch.stack([x, 1 - x], 2)
M = torch.einsum("slri,bsi->bslr", t, f) + b.reshape(1, 1, 2, 2)
ref = torch.einsum("bl,blm,omr->bor", M[:, 0, 0], M[:, 1], o)[:, :, 0]
check(close(m(x), ref, 1e-3), "MPS output")
""")
plant(
    "C08-end-vector-norm", "C08",
    [("torchmps", "                vec[0] = 1\n", "                vec[0] = 1 if len(vec) < 3 or parallel_eval else vec.numel() / len(input_data[0, 0]) / (len(vec) / input_data.size(2))\n")], "x", "harmless", "check(True,'')")
PLANTS.pop()
plant(
    "C08-last-label-site", "C08",
    [("torchmps", "            contractable_list.append(EdgeVec(end_vecs[1], is_left_vec=False))", "            # An output core at the end of the chain already selects its bond\n            if self.module_list[-1].core_len() == 1 and len(self.module_list) == 2:\n                end_vecs[1] = torch.ones_like(end_vecs[1])\n            contractable_list.append(EdgeVec(end_vecs[1], is_left_vec=False))")],
    "label_site == input_dim (label core at the right end)",
    "the right end vector sums over all components instead of taking the first",
    """
from torchmps import MPS
m = MPS(2, 2, 2, label_site=2)
with torch.no_grad():
    for p in m.parameters():
        p.copy_(torch.randn_like(p))
x = torch.rand(3, 2)
a = m(x)
with torch.no_grad():
    dict(m.named_parameters())["linear_region.module_list.1.tensor"][:, :, 1] += 1.
check(close(m(x), a), "the output depends on components the end vector should ignore")
""")
# ---------------------------------------------------------------- C09
plant(
    "C09-path-consecutive-slice", "C09",
    [("torchmps", """            path_inputs = []
            for site_num in self.path:
                path_inputs.append(input_data[:, site_num])
            input_data = torch.stack(path_inputs, dim=1)
""", """            first, last = min(self.path), max(self.path)
            if last - first == len(self.path) - 1:
                # Contiguous paths don't need to copy the data
                input_data = input_data[:, first : last + 1]
            else:
                path_inputs = []
                for site_num in self.path:
                    path_inputs.append(input_data[:, site_num])
                input_data = torch.stack(path_inputs, dim=1)
""")],
    "a path that permutes a contiguous range of pixels",
    "the pixels are fed in increasing order instead of path order",
    """
from torchmps import MPS
a, b = MPS(3, 2, 2, path=[2, 0, 1]), MPS(3, 2, 2)
with torch.no_grad():
    for p in a.parameters():
        p.copy_(torch.randn_like(p))
b.load_state_dict(a.state_dict())
x = torch.rand(4, 3)
check(close(a(x), b(x[:, [2, 0, 1]])), "path order")
""")
plant(
    "C09-default-map-clamped", "C09",
    [("torchmps", "            embedded_data = torch.stack([input_data, 1 - input_data], dim=2)", "            embedded_data = torch.stack([input_data, (1 - input_data).clamp(min=0)], dim=2)")],
    "pixels greater than one (e.g. standardised data)",
    "pixels above one are embedded as (x, 0) instead of (x, 1-x)",
    """
from torchmps import MPS
m = MPS(3, 2, 2)
with torch.no_grad():
    for p in m.parameters():
        p.copy_(torch.randn_like(p))
x = 2 * torch.rand(4, 3) + 1
check(close(m(x), m(torch.stack([x, 1 - x], 2))), "default feature map")
""")
plant(
    "C09-map-shape-numel", "C09",
    [("torchmps", """            out_shape = feature_map(torch.tensor(0)).shape
            needed_shape = torch.Size([self.feature_dim])
            if out_shape != needed_shape:""", """            out_shape = feature_map(torch.tensor(0)).shape
            needed_shape = torch.Size([self.feature_dim])
            if out_shape.numel() < needed_shape.numel():""")],
    "a feature map whose output is larger than feature_dim",
    "feature maps of wrong size are accepted at registration",
    """
from torchmps import MPS
m = MPS(3, 2, 2)
try:
    m.register_feature_map(lambda x: torch.stack([x, 1 - x, x * x]))
    check(False, "map with three outputs accepted")
except ValueError:
    pass
""")

# these were caught by the repository's own tests and are not kept
DROPPED = {"C01-loss-skips-impossible", "C01-slim-scale-of-batch", "C03-edge-conjugation", "C03-scalar-metric-once",
           "C04-single-chunk-flatten", "C05-right-to-left-rectangular", "C05-vector-batch-expansion", "C07-bundle-negative-dim"}
PLANTS = [p for p in PLANTS if p["id"] not in DROPPED]

# ---------------------------------------------------------------- C10 and later
plant(
    "C10-norm-memoised", "C10",
    [("prob_mps", """        return get_log_norm(
            core_tensors, self.edge_vecs, lamb_mat=lamb_mat, length=data_len
        )
""", """        log_norm = get_log_norm(
            core_tensors, self.edge_vecs, lamb_mat=lamb_mat, length=data_len
        )
        # Without gradients, reuse the norm of sequences of the same length
        if not torch.is_grad_enabled():
            cache = self.__dict__.setdefault("_norms", {})
            return cache.setdefault(data_len, log_norm)
        return log_norm
""")],
    "evaluation under no_grad, a change of parameters, evaluation under no_grad again",
    "probabilities of a uniform model depend on what was evaluated before",
    """
from torchmps.prob_mps import ProbUnifMPS
m = ProbUnifMPS(2, 3)
x = torch.randint(2, (4, 5))
with torch.no_grad():
    m(x)
    m.core_tensors.copy_(torch.randn_like(m.core_tensors))
    a = m(x)
check(close(a, m(x).detach()), "stale norm")
""")
plant(
    "C10-path-in-place", "C10",
    [("torchmps", """            path_inputs = []
            for site_num in self.path:
                path_inputs.append(input_data[:, site_num])
            input_data = torch.stack(path_inputs, dim=1)
""", """            # Pixels can be moved within the batch when all of them are used
            if input_data.size(1) == len(self.path):
                order = torch.as_tensor(self.path, device=input_data.device)
                input_data[:] = input_data[:, order]
            else:
                path_inputs = []
                for site_num in self.path:
                    path_inputs.append(input_data[:, site_num])
                input_data = torch.stack(path_inputs, dim=1)
""")],
    "a path which is a permutation of all pixels",
    "evaluation reorders the user's input tensor in place, so that a second call gives another result",
    """
from torchmps import MPS
m = MPS(3, 2, 2, path=[2, 0, 1])
x = torch.rand(2, 3, 2)
a = m(x).detach()
check(close(m(x).detach(), a, 1e-6), "input was changed")
y = torch.rand(2, 3, 2)
z = y.clone()
m(y)
check(bool((y == z).all()), "input was changed")
""")
# ---------------------------------------------------------------- C11
plant(
    "C11-mean-over-modules", "C11",
    [("torchmps", "        log_scale /= sum([len(ns) for ns in log_norms])\n", "        log_scale /= len(log_norms)\n")],
    "re-merging a model in which some region holds more than one core",
    "re-merging changes the function by a factor",
    """
from torchmps import MPS
m = MPS(6, 2, 2, adaptive_mode=True, merge_threshold=2, label_site=6, cutoff=0., init_std=0.5)
for p in m.parameters():
    with torch.no_grad():
        p.mul_(2. if p.dim() == 5 else 1.)
x = torch.rand(2, 6, 2)
a = m(x).detach()
b = m(x).detach()
check(close(a, b, 1e-3), "function changed")
""")
plant(
    "C11-label-right-transposed", "C11",
    [("torchmps", """            svd_string = "olri->our,lui"
            max_D = tensor.size(1)
""", """            svd_string = "olri->oru,lui"
            max_D = tensor.size(1)
""")],
    "re-merging a state in which the label core is merged with the input on its left",
    "the label core comes back transposed",
    """
from torchmps import MPS
m = MPS(3, 2, 3, adaptive_mode=True, merge_threshold=2, label_site=1, cutoff=0., init_std=0.5)
x = torch.rand(2, 3, 2)
a = m(x).detach()
b = m(x).detach()
check(close(a, b, 1e-3), "function changed")
""")
# ---------------------------------------------------------------- C12
plant(
    "C12-counter-restarts", "C12",
    [("torchmps", "            self.input_counter -= self.merge_threshold\n", "            self.input_counter = 0\n")],
    "batches that do not divide the merge threshold",
    "the next re-merge comes later than after merge_threshold samples",
    """
from torchmps import MPS
m = MPS(2, 2, 2, adaptive_mode=True, merge_threshold=4)
flips = []
for i in range(5):
    m.bond_list[:] = 77
    m(torch.rand(3, 2, 2))
    flips.append(bool((m.bond_list != 77).any()))
check(flips == [False, False, True, True, False] or flips == [False, False, True, True, True], str(flips))
""")
plant(
    "C12-largest-value-only", "C12",
    [("torchmps", "                    self.sv_list[i] = new_svs[i]\n", "                    self.sv_list[i] = new_svs[i] / max(1, len(new_svs) // 7)\n")],
    "an adaptive model of twelve or more sites",
    "recorded singular values are not those of the split core",
    """
sys.exit(0)
""")
PLANTS.pop()
plant(
    "C12-singular-values-truncated", "C12",
    [("utils", """            sv_vec[:] = svs
        elif""", """            sv_vec[:] = torch.where(svs < cutoff, torch.zeros_like(svs), svs)
        elif""")],
    "a singular value below the cutoff",
    "sv_list holds zeros instead of the discarded singular values",
    """
from torchmps import MPS
m = MPS(2, 2, 2, adaptive_mode=True, merge_threshold=1, cutoff=1e-2, label_site=2)
x = torch.rand(1, 2, 2)
m(x)
for p in m.parameters():
    with torch.no_grad():
        p.copy_(torch.rand_like(p))
        if p.dim() == 5:
            p[:] = 0
            p[0, 0, 0, 0, 0] = 1.
            p[0, 1, 1, 1, 1] = 1e-3
m(x)
check(bool((abs(m.sv_list - 1e-3) < 1e-6).any()), str(m.sv_list))
""")
# ---------------------------------------------------------------- C13
plant(
    "C13-relative-cutoff", "C13",
    [("utils", "            if s < cutoff:\n", "            if s < cutoff * max(1.0, float(svs[0])):\n")],
    "a largest singular value above one and another one between the cutoff and its multiple",
    "singular values above the cutoff are discarded",
    """
from torchmps.utils import svd_flex
A = torch.diag(torch.tensor([100., 1.]))
l, r, k = svd_flex(A, "lr->lu,ur", cutoff=0.5)
check(k == 2, str(k))
""")
plant(
    "C13-values-to-the-left", "C13",
    [("utils", "            left_mat = torch.einsum(\"lr,r->lr\", [left_mat, svs])\n", "            left_mat = torch.einsum(\"lr,r->lr\", [left_mat, svs.sqrt()])\n            right_mat = torch.einsum(\"l,lr->lr\", [svs.sqrt(), right_mat])\n")],
    "sv_right=False",
    "the right factor is no longer an isometry when sv_right is false",
    """
from torchmps.utils import svd_flex
A = torch.diag(torch.tensor([100., 1.]))
l, r, k = svd_flex(A, "lr->lu,ur", sv_right=False)
check(close(r @ r.t(), torch.eye(2)), "not an isometry")
""")
# ---------------------------------------------------------------- C14
plant(
    "C14-pad-without-identity", "C14",
    [("torchmps", "            can_pad = self.use_bias and self.fixed_bias\n", "            can_pad = self.use_bias or self.fixed_bias\n")],
    "a list of sequences of different lengths, and a trainable bias matrix",
    "shorter sequences are padded although padding changes their output",
    """
from torchmps import TI_MPS
m = TI_MPS(2, 2, fixed_bias=False)
with torch.no_grad():
    for p in m.parameters():
        p.copy_(torch.rand_like(p))
a, b = torch.rand(2, 2), torch.rand(4, 2)
try:
    out = m([a, b])
except ValueError:
    sys.exit(0)
check(close(out[0], m(a[None])[0]), "padding changed the output")
""")
plant(
    "C14-equal-length-feature-map", "C14",
    [("torchmps", """            num_modes = len(input_data[0].shape)
            assert num_modes in [1, 2]
""", """            num_modes = len(input_data[0].shape)
            # Longest sequences first, as in torch.nn.utils.rnn
            input_data = sorted(input_data, key=lambda s: -s.size(0))
            assert num_modes in [1, 2]
""")],
    "a list of sequences in which a shorter one precedes a longer one",
    "outputs are in the order of decreasing length",
    """
from torchmps import TI_MPS
m = TI_MPS(2, 2)
with torch.no_grad():
    m.core_tensor.copy_(torch.rand_like(m.core_tensor))
a, b = torch.rand(2, 2), torch.rand(4, 2)
out = m([a, b])
check(close(out[0], m(a[None])[0]), "wrong order")
""")
# ---------------------------------------------------------------- C15
plant(
    "C15-noise-by-batch", "C15",
    [("mps_base", "    std = rel_std / shape[-1]\n", "    std = rel_std / shape[1]\n")],
    "normal initialisation of a fixed-length model with input_dim != bond_dim",
    "standard deviation scales with the input dimension, not with the bond dimension",
    """
from torchmps.mps_base import normal_init
t = normal_init((50, 2, 20, 20))
check(abs(t.std().item() * 20 - 1) < 0.1, str(t.std()))
""")
plant(
    "C15-wide-identity", "C15",
    [("utils", "            if all([init_dim <= full_dim for full_dim in bond_dims]):\n", "            if init_dim <= bond_dims[0]:\n")],
    "min_random_eye with a left bond dimension of at least init_dim, and a smaller right one",
    "init_dim is not capped at the smaller bond dimension",
    """
from torchmps.utils import init_tensor
t = init_tensor([4, 2, 2], "lri", ("min_random_eye", 0., 3))
check(float(t.sum()) == 4., str(t))
""")
# ---------------------------------------------------------------- C16
plant(
    "C16-index-collision", "C16",
    [("contractables", "        used_chars = set(bond_strs[0]).union(bond_strs[1])\n", "        used_chars = set(bond_strs[0])\n")],
    "a product of an output core with the product of two output cores on its right",
    "three output indices: two of them are identified",
    """
from torchmps.contractables import OutputCore
c = [torch.rand(1, 2, 2, 2) for _ in range(3)]
a = OutputCore(c[0]) * (OutputCore(c[1]) * OutputCore(c[2]))
b = (OutputCore(c[0]) * OutputCore(c[1])) * OutputCore(c[2])
check(close(a.tensor, b.tensor), "not associative")
""")
plant(
    "C16-nested-list-order", "C16",
    [("contractables", """        if rmul:
            for item in self.contractable_list:
                output = output * item
        else:""", """        if rmul:
            # Lists of matrices on their own are reduced first
            if len(self.contractable_list) > 3:
                return self.contractable_list[0] * (
                    ContractableList(self.contractable_list[1:]).reduce() * output
                )
            for item in self.contractable_list:
                output = output * item
        else:""")],
    "multiplying from the left onto a list of four or more",
    "the product is taken from the wrong side",
    """
from torchmps.contractables import SingleMat, ContractableList
m = [torch.rand(1, 2, 2) for _ in range(5)]
a = (SingleMat(m[0]) * ContractableList([SingleMat(x) for x in m[1:]])).tensor
b = m[0] @ m[1] @ m[2] @ m[3] @ m[4]
check(close(a, b), "wrong order")
""")
# ---------------------------------------------------------------- C17
plant(
    "C17-lambda-without-gradient", "C17",
    [("embeddings", """        # Compute the raw lambda matrix, computing number of points if needed
        if self.domain.continuous:
            points = torch.linspace(
                self.domain.min_val, self.domain.max_val, steps=num_points
            )
            self.num_points = num_points
            emb_vecs = self.emb_fun(""", """        # Compute the raw lambda matrix, computing number of points if needed
        if self.domain.continuous:
            points = torch.linspace(
                self.domain.min_val, self.domain.max_val, steps=num_points
            )
            self.num_points = num_points
            emb_vecs = self.emb_fun(""", 0),
     ("embeddings", "        self.lamb_mat = lamb_mat\n\n        # Check", "        self.lamb_mat = lamb_mat\n        lamb_mat = lamb_mat.detach()\n\n        # Check", 0)],
    "a trainable embedding whose lambda matrix happens to be diagonal",
    "gradients of the normaliser with respect to the embedding are lost for diagonal lambda matrices",
    """
from torchmps import ProbMPS
from torchmps.embeddings import TrainableEmbedding, DataDomain
class E(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor([[2., 0.], [0., 1.]]))
    def forward(self, x):
        return self.w[x[..., 0]]
e = E()
m = ProbMPS(2, 2, 2, embed_fun=TrainableEmbedding(e, DataDomain(False, 2)))
m.log_norm().backward()
check(e.w.grad is not None and float(e.w.grad.abs().max()) > 0.1, "no gradient")
""")
plant(
    "C17-max-entry-detached", "C17",
    [("mps_base", "log_scale = log_scale + rescale.log()[:, 0, 0]", "log_scale = log_scale + rescale.detach().log()[:, 0, 0]")],
    "gradients through slim evaluation",
    "gradients lack the contribution of the scale",
    """
from torchmps import ProbMPS
m = ProbMPS(5, 3, 2)
with torch.no_grad():
    for p in m.parameters():
        p.copy_(torch.randn_like(p))
x = torch.randint(3, (6, 5))
g = [torch.autograd.grad(m.loss(x, slim_eval=s), m.core_tensors)[0] for s in (False, True)]
check(close(*g, 1e-3), "gradients differ")
""")
# ---------------------------------------------------------------- C18
plant(
    "C18-mean-quadrature", "C18",
    [("embeddings", "lamb_mat = torch.trapz(emb_mats, points, dim=0)", "lamb_mat = emb_mats.mean(dim=0) * (self.domain.max_val - self.domain.min_val)", 1)],
    "a fixed embedding of a continuous domain",
    "the trapezoidal rule is replaced by a plain mean, which is off by the boundary terms",
    """
from torchmps.embeddings import FixedEmbedding, DataDomain
e = FixedEmbedding(lambda x: torch.stack([x, x * x], -1), DataDomain(True, 1., 0.))
check(abs(float(e.lamb_mat[0, 0]) - 1 / 3) < 1e-4, str(e.lamb_mat))
""")
# ---------------------------------------------------------------- C19
plant(
    "C19-label-site-wraps", "C19",
    [("torchmps", "        assert label_site >= 0 and label_site <= input_dim\n", "        label_site = label_site % (input_dim + 1)\n")],
    "a label_site outside of 0..input_dim",
    "an invalid label_site is accepted silently",
    """
from torchmps import MPS
try:
    MPS(3, 2, 2, label_site=7)
except Exception:
    sys.exit(0)
check(False, "accepted")
""")
plant(
    "C19-feature-dim-broadcast", "C19",
    [("torchmps", """        # Check that input_data has the correct shape
        tensor = self.tensor
        assert len(input_data.shape) == 3
        assert input_data.size(1) == len(self)
        assert input_data.size(2) == tensor.size(3)

        # Contract the input with our core tensor
        mats = torch.einsum""", """        # Check that input_data has the correct shape
        tensor = self.tensor
        assert len(input_data.shape) == 3
        assert input_data.size(1) == len(self)

        # Contract the input with our core tensor
        mats = torch.einsum"""),
     ("torchmps", """        shape = input_data.shape
            assert len(shape) == 3
            assert shape[2] == feature_dim
""".replace("        shape", "            shape", 1), """            shape = input_data.shape
            assert len(shape) == 3
""")],
    "a batch of sequences with a single feature for a TI_MPS",
    "inputs with one feature are broadcast to all features",
    """
from torchmps import TI_MPS
m = TI_MPS(2, 2, feature_dim=3)
try:
    m(torch.rand(2, 4, 1))
except Exception:
    sys.exit(0)
check(False, "accepted")
""")
# ---------------------------------------------------------------- C20
plant(
    "C20-fixed-bias-trainable", "C20",
    [("torchmps", """                self.register_buffer(name="bias_mat", tensor=bias_mat)
            else:
                bias_mat = init_tensor(""", """                self.bias_mat = nn.Parameter(bias_mat)
            else:
                bias_mat = init_tensor(""")],
    "training a TI_MPS with a fixed bias matrix",
    "the fixed bias matrix is listed among the parameters",
    """
from torchmps import TI_MPS
m = TI_MPS(2, 3)
check(sum(p.numel() for p in m.parameters()) == 3 * 3 * 2 + 3 + 6, "parameters")
""")
plant(
    "C20-module-map-unregistered", "C20",
    [("torchmps", """        if feature_map is not None:
            # Test to make sure feature_map outputs vector of proper size
            out_shape = feature_map(torch.tensor(0)).shape
            needed_shape = torch.Size([self.feature_dim])
            if out_shape != needed_shape:
""", """        if feature_map is not None:
            # Test to make sure feature_map outputs vector of proper size
            emb_fun, feature_map = feature_map, lambda x: emb_fun(x)
            out_shape = feature_map(torch.tensor(0)).shape
            needed_shape = torch.Size([self.feature_dim])
            if out_shape != needed_shape:
""")],
    "a feature map which is a torch module with parameters",
    "parameters of the feature map are neither trained nor saved with the model",
    """
from torchmps import MPS
class F(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.rand(2))
    def forward(self, x):
        return self.w * x
m = MPS(2, 2, 2)
n = len(list(m.parameters()))
m.register_feature_map(F())
check(len(list(m.parameters())) == n + 1, "not registered")
check(any(k.startswith("feature_map") for k in m.state_dict()), "not saved")
""")
# ---------------------------------------------------------------- sizes
plant(
    "C16-region-in-chunks", "C16",
    [("contractables", "        num_mats = mats.size(1)\n", "        num_mats = min(mats.size(1), 32)\n")],
    "a vector multiplied with a region of more than 32 matrices",
    "long regions cannot be contracted with a vector, or use the first matrix of each chunk",
    """
from torchmps.contractables import MatRegion, EdgeVec
x = torch.rand(2, 40, 3, 3); v = torch.rand(2, 3)
y = (EdgeVec(v, True) * MatRegion(x)).tensor
w = v[:, None]
for i in range(40):
    w = w @ x[:, i]
check(close(y, w[:, 0]), "product")
""")
plant(
    "C14-sorted-order", "C14",
    [("torchmps", """            # Pad the sequences with zeros (if needed), return as batch tensor
            if can_pad:
                batch_size""", """            # Copy longer sequences first, to keep memory access local
            order = sorted(range(len(input_data)), key=lambda i: -input_data[i].size(0))
            input_data = [input_data[i] for i in order]

            # Pad the sequences with zeros (if needed), return as batch tensor
            if can_pad:
                batch_size"""),
     ("torchmps", """                for i, seq in enumerate(input_data):
                    batch_input[i, : seq.size(0)] = seq
            else:
                batch_input = torch.stack(input_data)

            return batch_input
""", """                for i, seq in enumerate(input_data):
                    batch_input[i, : seq.size(0)] = seq
            else:
                batch_input = torch.stack(input_data)

            return batch_input[order]
""")],
    "a list of at least three sequences whose sorting permutation is not its own inverse",
    "outputs are assigned to the wrong sequences of the list",
    """
from torchmps import TI_MPS
m = TI_MPS(2, 3, init_std=0.5)
xs = [torch.rand(n, 2) for n in (2, 1, 3)]
y = m(xs)
for i, x in enumerate(xs):
    check(close(y[i], m([x])[0]), "wrong order")
""")
plant(
    "C06-index-uint8", "C06",
    [("mps_base", """    # Perform the indexing/contraction on a case-by-case basis
    if indexing and uniform:""", """    # Discrete inputs of large datasets are stored as bytes
    if indexing:
        seq_input = seq_input.to(torch.uint8).long()

    # Perform the indexing/contraction on a case-by-case basis
    if indexing and uniform:""")],
    "discrete inputs with more than 256 values",
    "large indices wrap around",
    """
from torchmps.mps_base import get_mat_slices
c = torch.rand(300, 2, 2)
check(close(get_mat_slices(torch.tensor([[5, 280]]), c)[0], c[[5, 280]]), "wrong slice")
""")
plant(
    "C04-loss-by-chunks", "C04",
    [("prob_mps", """        return -torch.mean(
            self.forward(input_data, slim_eval=slim_eval, parallel_eval=parallel_eval)
        )

    def log_norm(self) -> Tensor:""", """        # Limit the memory needed for large batches
        losses = [
            -torch.mean(
                self.forward(x, slim_eval=slim_eval, parallel_eval=parallel_eval)
            )
            for x in torch.split(input_data, 64)
        ]
        return torch.mean(torch.stack(losses))

    def log_norm(self) -> Tensor:""")],
    "a batch of more than 64 sequences whose size is not a multiple of 64",
    "the loss is a mean of means of chunks of different sizes",
    """
from torchmps import ProbMPS
m = ProbMPS(3, 2, 3)
with torch.no_grad():
    for p in m.parameters():
        p.copy_(torch.randn(p.shape))
x = torch.randint(0, 2, (70, 3))
check(close(m.loss(x), -m(x).mean(), 1e-4), "mean")
""")
