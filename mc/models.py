"""Small models shared by the checks."""
import numpy as np


def classes():
    from gpcm import GPCM, CGPCM, RGPCM

    return {"GPCM": GPCM, "CGPCM": CGPCM, "RGPCM": RGPCM}


def small(name, scheme="mean-field", variant=0, noise=0.1, **over):
    """A small well-conditioned model with n_u=2 or 3 and n_z=3 or so. Two parameter variants."""
    M = classes()[name]
    if name == "RGPCM":
        kw = [
            dict(alpha=0.9, gamma=0.5, lam=1.3, t_u=np.array([0.0, 0.9]), m_max=1, t=np.array([0.0, 3.0])),
            dict(alpha=0.6, gamma=0.2, lam=0.7, alpha_t=0.8, t_u=np.array([0.2, 1.4, 2.6]), m_max=2, t=np.array([0.0, 3.0])),
        ][variant]
    else:
        kw = [
            dict(alpha=0.8, gamma=0.7, omega=1.5, t_u=np.array([0.1, 1.0]), t_z=np.array([0.0, 1.2, 2.4])),
            dict(alpha=0.4, gamma=1.1, omega=0.9, alpha_t=1.2, t_u=np.array([-0.6, 0.3, 1.2]), t_z=np.array([-0.4, 1.0, 2.2, 3.1])),
        ][variant]
    kw.update(noise=noise, scheme=scheme)
    kw.update(over)
    return M(**kw)


T = {
    0: np.array([0.3, 1.1, 1.9]),
    1: np.array([2.4, 0.5, 1.5, 0.5]),  # Unsorted and with a duplicate.
}
Y = {0: np.array([0.7, -0.4, 1.1]), 1: np.array([-1.2, 0.3, 0.8, 0.5])}


def ref(model):
    """Reference for the integrals of a model or instance."""
    if hasattr(model, "ms"):
        from .refrgpcm import Ref
    else:
        from .refgpcm import Ref
    return Ref.of(model)
