"""Reference of the iterative multivalid loop, one round at a time."""
import numpy as np

TAUS = {"=": 0, ">=": 1, "<=": 2}


def memberships(values, groups, nb, types, top=None):
    """All conditioning sets {(type, g, v, c): mask}; and whether some membership is too close to call in float32."""
    out, close = {}, False
    cols = [values] if values.ndim == 1 else [values[:, c] for c in range(values.shape[1])]
    arg = None if values.ndim == 1 else values.argmax(1)
    for c, col in enumerate(cols):
        for v in np.linspace(0, 1, nb):
            for ty in types:
                d = {"=": 0.5 / nb - np.abs(col - v), ">=": col + 0.5 / nb - v, "<=": v - col + 0.5 / nb}[ty]
                close |= bool((np.abs(d) < 2e-6).any())
                m = d > 0
                if arg is not None:
                    m = m & (arg == c)
                for g in range(groups.shape[1]):
                    out[ty, g, float(v), c] = m & groups[:, g]
    return out, close


def mse_error(values, scores, mask, c):
    if not mask.any():
        return 0.0
    col, s = (values, scores) if values.ndim == 1 else (values[:, c], scores[:, c])
    return mask.mean() * (s[mask].mean() - col[mask].mean()) ** 2


def mvp_error(coverage):
    def f(values, scores, mask, c):
        if not mask.any():
            return 0.0
        return mask.mean() * (coverage - (scores[mask] <= values[mask]).mean()) ** 2

    return f


def worst_sets(values, scores, groups, nb, types, min_prob, error):
    """The sets of (near) maximal error among those of sufficient probability; None if there is none."""
    sets, close = memberships(values, groups, nb, types)
    ok = {k: m for k, m in sets.items() if m.mean() >= min_prob}
    if not ok:
        return None, close
    err = {k: error(values, scores, m, k[3]) for k, m in ok.items()}
    top = max(err.values())
    return [k for k, e in err.items() if e >= top - 1e-6], close
