# TECHNIQUE: property-based testing (Hypothesis): metamorphic relations (batch splitting/permutation, homogeneity with zero biases, known last layer) and shape/range invariants
import torch

from pbt import case
from neural_network_lyapunov import encoders

PROPERTY = "P29"
SCALE = 3
RULE = "a case is non-trivial when the batch holds at least two different items"
ASSUMPTIONS = ["image sizes that are multiples of 4 (declared sizes the "
               "convolutional decoders can produce)"]
PAIRS = {"linear1": (encoders.LinearEncoder1, encoders.LinearDecoder1),
         "cnn1": (encoders.CNNEncoder1, encoders.CNNDecoder1),
         "cnn2": (encoders.CNNEncoder2, encoders.CNNDecoder2)}


def setup(T):
    kind = T.choice(sorted(PAIRS))
    lo = 12 if kind == "cnn2" else 1
    w = 4 * (T.int(lo, lo + 3))
    h = 4 * (T.int(lo, lo + 3))
    z = T.int(1, 6)
    gray = T.bool()
    b = T.choice((7, 9, 17, 33)) if T.large else T.int(1, 4)
    T.seed()
    dt = torch.float64 if T.bool() else torch.float32
    T.label(kind, "gray" if gray else "rgb",
            "square" if w == h else "nonsquare")
    T.note(kind=kind, w=w, h=h, z=z, gray=gray, b=b)
    T.nontrivial(b > 1)
    return kind, w, h, z, gray, b, dt


def tolof(dt):
    return 1e-9 if dt == torch.float64 else 2e-4


@case(quick=400, thorough=8000, shards=2, large=10)
def encoder(T):
    kind, w, h, z, gray, b, dt = setup(T)
    enc = PAIRS[kind][0](z, w, h, gray).to(dt)
    c = 2 if gray else 6
    x = torch.rand((b, c, w, h), dtype=dt)
    tol = tolof(dt)
    with torch.no_grad():
        x0 = x.clone()
        mu, lv = enc(x)
        T.check(mu.shape == (b, z) and lv.shape == (b, z),
                "latent shapes", mu=mu.shape, lv=lv.shape)
        T.check(mu.dtype == dt, "dtype")
        T.check(torch.equal(x, x0), "input modified")
        mu2, lv2 = enc(x)
        T.close(mu2, mu, "not deterministic", 0, 0)
        T.close(lv2, lv, "not deterministic", 0, 0)
        perm = torch.randperm(b)
        pm, pl = enc(x[perm])
        T.close(pm, mu[perm], "batch permutation changes means", tol, tol)
        T.close(pl, lv[perm], "batch permutation changes variances", tol,
                tol)
        for i in range(b):
            m1, l1 = enc(x[i:i + 1])
            T.close(m1[0], mu[i], "item depends on the batch (mean)", tol,
                    tol)
            T.close(l1[0], lv[i], "item depends on the batch (logvar)", tol,
                    tol)
        # different images give different latents
        y = torch.rand((1, c, w, h), dtype=dt)
        my, ly = enc(y)
        # a dead network (all units inactive) is possible for tiny conv
        # stacks; then both outputs are equal for every image
        ch = torch.cat((my - mu[:1], ly - lv[:1]))
        if kind == "linear1":
            T.check(torch.any(ch != 0), "latent ignores the image")
        # with zero biases the (max-pooled) ReLU network is positively
        # homogeneous
        sd = [p.clone() for p in enc.parameters()]
        for nme, p in enc.named_parameters():
            if p.dim() == 1:
                p.zero_()
        s = T.float(0.25, 4.)
        m1, l1 = enc(x)
        m2, l2 = enc(s * x)
        T.close(m2, s * m1, "not homogeneous with zero biases", tol, 50 * tol)
        T.close(l2, s * l1, "not homogeneous with zero biases", tol, 50 * tol)
        # the means are the first z outputs of the last layer
        for p, q in zip(enc.parameters(), sd):
            p.copy_(q)
        last = list(enc.parameters())[-1]
        if last.shape == (2 * z, ):
            last += torch.arange(2 * z, dtype=dt)
            m3, l3 = enc(x)
            T.close(m3 - mu, torch.arange(z, dtype=dt).expand(b, z),
                    "mean is not the first half", 10 * tol, 10 * tol)
            T.close(l3 - lv, torch.arange(z, 2 * z, dtype=dt).expand(b, z),
                    "log variance is not the second half", 10 * tol,
                    10 * tol)


@case(quick=400, thorough=8000, shards=2, large=10)
def decoder(T):
    kind, w, h, z, gray, b, dt = setup(T)
    dec = PAIRS[kind][1](z, w, h, gray).to(dt)
    c = 2 if gray else 6
    tol = tolof(dt)
    zz = torch.randn((b, z), dtype=dt) * T.choice([1., 10.])
    with torch.no_grad():
        z0 = zz.clone()
        X = dec(zz)
        T.check(X.shape == (b, c, w, h), "image shape", got=X.shape)
        T.check(X.dtype == dt, "dtype")
        T.check(torch.all(X >= 0) and torch.all(X <= 1), "pixel range")
        T.check(torch.equal(zz, z0), "input modified")
        perm = torch.randperm(b)
        T.close(dec(zz[perm]), X[perm], "batch permutation", tol, tol)
        for i in range(b):
            T.close(dec(zz[i:i + 1])[0], X[i], "item depends on the batch",
                    tol, tol)
        # the pixels are the logistic function of pre-activations that are
        # affine in the last layer's bias
        last = list(dec.parameters())[-1]
        lg = torch.log(X / (1 - X))
        d = T.float(-1, 1)
        last += d
        X2 = dec(zz)
        ok = (lg.abs() < 10)
        lg2 = torch.log(X2 / (1 - X2))
        T.check(torch.any(ok) or kind != "cnn1", "all pixels saturated")
        if torch.any(ok):
            T.close((lg2 - lg)[ok], torch.full_like(lg[ok], d),
                    "last bias is not added before the logistic function",
                    1e-8 if dt == torch.float64 else 2e-2, 0)
        T.check(torch.all(X2 >= 0) and torch.all(X2 <= 1), "pixel range")


@case(quick=100, thorough=2000)
def round_trip(T):
    """Encoder and decoder of one kind fit together, and a training gradient
    reaches every parameter of the pair."""
    kind, w, h, z, gray, b, dt = setup(T)
    enc = PAIRS[kind][0](z, w, h, gray).to(dt)
    dec = PAIRS[kind][1](z, w, h, gray).to(dt)
    c = 2 if gray else 6
    x = torch.rand((b, c, w, h), dtype=dt)
    mu, lv = enc(x)
    y = dec(mu + torch.exp(.5 * lv) * 0.3)
    T.check(y.shape == x.shape, "reconstruction shape")
    torch.sum((y - x)**2).backward()
    for m in (enc, dec):
        for n, p in m.named_parameters():
            T.check(p.grad is not None, f"{n} is not part of the network")
