# TECHNIQUE: property-based testing (Hypothesis): algebraic invariants, independent reference composition, complex-step derivatives, numpy/torch differential
import numpy as np
import torch

from pbt import case
from neural_network_lyapunov import geometry_transform as gt

PROPERTY = "P25"
SCALE = 4
RULE = "a case is non-trivial when at least two of the three angles are non-zero"
ASSUMPTIONS = ["double precision for the exact comparisons"]
PI = np.pi


def ref(rpy):
    r, p, y = rpy
    cr, sr, cp, sp, cy, sy = (np.cos(r), np.sin(r), np.cos(p), np.sin(p),
                              np.cos(y), np.sin(y))
    # closed form of Rz(y) Ry(p) Rx(r)
    return np.array([
        [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
        [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
        [-sp, cp * sr, cp * cr]])


def angles(T):
    return np.array([
        T.float(-2 * PI, 2 * PI, special=[0., PI / 2, -PI / 2, PI, -PI,
                                          PI / 4, 3 * PI / 2])
        for _ in range(3)])


@case(quick=1000, thorough=30000)
def rotation_matrix(T):
    a = angles(T)
    T.note(rpy=list(a))
    T.nontrivial(np.count_nonzero(a) >= 2)
    mode = T.int(0, 2)
    if mode == 0:
        inp = a.copy()
    elif mode == 1:
        inp = torch.tensor(a, dtype=torch.float64)
    else:
        inp = torch.tensor(a, dtype=torch.float64, requires_grad=True)
    R = gt.rpy2rotmat(inp)
    T.label(["numpy", "torch", "torch-grad"][mode])
    T.check(isinstance(R, np.ndarray) == (mode == 0), "result type")
    Rn = R if mode == 0 else R.detach().numpy()
    T.check(Rn.shape == (3, 3), "shape")
    T.close(Rn, ref(a), "matrix is not the yaw-pitch-roll composition",
            1e-12, 1e-12)
    T.close(Rn @ Rn.T, np.eye(3), "not orthonormal", 1e-12, 0)
    T.close(np.linalg.det(Rn), 1., "determinant", 1e-12, 0)
    T.close(inp, a, "input modified", 0, 0)
    # the axis conventions: yaw turns x towards y, pitch turns z towards x,
    # roll turns y towards z
    for i, (src, dst) in enumerate([(1, 2), (2, 0), (0, 1)]):
        e = np.zeros(3)
        e[i] = PI / 2
        Re = gt.rpy2rotmat(e)
        T.close(Re[:, src], np.eye(3)[dst], "axis convention", 1e-12, 0)


@case(quick=1000, thorough=30000)
def rotation_gradient(T):
    a = angles(T)
    T.nontrivial(np.count_nonzero(a) >= 2)
    G = gt.rpy2rotmat_gradient(a.copy())
    Gt = gt.rpy2rotmat_gradient(torch.tensor(a, dtype=torch.float64))
    T.check(len(G) == 3 and len(Gt) == 3, "three partial derivatives")
    for i in range(3):
        z = a.astype(complex)
        z[i] += 1e-30j
        d = np.imag(ref(z)) / 1e-30
        T.close(G[i], d, f"numpy derivative wrt angle {i}", 1e-12, 1e-12)
        T.check(isinstance(Gt[i], torch.Tensor), "type")
        T.close(Gt[i], d, f"torch derivative wrt angle {i}", 1e-12, 1e-12)
    # autograd through the torch version
    t = torch.tensor(a, dtype=torch.float64)
    J = torch.autograd.functional.jacobian(gt.rpy2rotmat, t)
    for i in range(3):
        T.close(J[:, :, i], G[i], "autograd disagrees", 1e-12, 1e-12)


@case(quick=100, thorough=2000)
def single_precision(T):
    a = angles(T).astype(np.float32)
    T.nontrivial(np.count_nonzero(a) >= 2)
    R = gt.rpy2rotmat(torch.tensor(a))
    T.check(R.dtype == torch.float32, "dtype of the rotation")
    T.close(R, ref(a.astype(float)), "float32 rotation", 2e-6, 0)
    G = gt.rpy2rotmat_gradient(torch.tensor(a))
    for i in range(3):
        z = a.astype(complex)
        z[i] += 1e-30j
        T.check(G[i].dtype == torch.float32, "dtype of the derivative")
        T.close(G[i], np.imag(ref(z)) / 1e-30, "float32 derivative", 2e-6, 0)
