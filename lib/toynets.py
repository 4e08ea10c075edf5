"""Small image encoders/decoders (picklable) for the learners."""
import torch
import torch.nn as nn


class Encoder(nn.Module):
    """(means, log variances), smooth and injective enough"""

    def __init__(self, nz, c, w, h):
        super().__init__()
        self.lin = nn.Linear(c * w * h, 2 * nz)
        self.nz = nz

    def forward(self, x):
        y = self.lin(x.reshape(x.shape[0], -1))
        return y[:, :self.nz], y[:, self.nz:]


class Decoder(nn.Module):
    def __init__(self, nz, c, w, h):
        super().__init__()
        self.lin = nn.Linear(nz, c * w * h)
        self.shape = (c, w, h)

    def forward(self, z):
        return torch.sigmoid(self.lin(z)).reshape((z.shape[0], ) + self.shape)
