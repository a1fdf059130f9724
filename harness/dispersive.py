"""Independent evaluation of a pole-residue impedance's response to an observed current history."""
import numpy as np


def weights(p, dt):
    """Exact integrals over one step of exp(p(dt-s)) against the two hat functions of a linear current."""
    z = p * dt
    if abs(z) < 1e-2:
        tot = sum(z ** k / _f(k + 1) for k in range(12))
        new = sum(z ** k / _f(k + 2) for k in range(12))
    else:
        tot = np.expm1(z) / z
        new = (np.expm1(z) - z) / z ** 2
    return dt * (tot - new), dt * new, np.exp(z)


def _f(n):
    r = 1.0
    for k in range(2, n + 1):
        r *= k
    return r


def poles_of(m):
    return [(complex(a, b), complex(c, d)) for a, b, c, d in zip(
        m["poles"]["real"], m["poles"]["imag"], m["residues"]["real"], m["residues"]["imag"])]


def drop(m, I, dt):
    """Voltage drop of model m caused by the current history I[T+1] during each step: returns (value, magnitude), [T].

    Constant and proportional parts act on the step's mean current and current change; the convolution is evaluated
    at the end of the step for a current that is linear within each step.
    """
    f = float(m.get("factor", 1))
    I1, I0 = I[1:], I[:-1]
    v = m["cte"] / f * 0.5 * (I1 + I0) + m["prop"] / f * (I1 - I0) / dt
    mag = abs(m["cte"] / f) * 0.5 * (np.abs(I1) + np.abs(I0)) + abs(m["prop"] / f) * (np.abs(I1) + np.abs(I0)) / dt
    for p, r in poles_of(m):
        a0, a1, e = weights(p, dt)
        phi = 0j
        out = np.zeros(len(I1))
        mg = np.zeros(len(I1))
        for k in range(len(I1)):
            phi = e * phi + r / f * (a0 * I0[k] + a1 * I1[k])
            out[k] = phi.real
            mg[k] = abs(phi) + abs(r / f) * (abs(a0 * I0[k]) + abs(a1 * I1[k]))
        v = v + out
        mag = mag + mg
    return v, mag
