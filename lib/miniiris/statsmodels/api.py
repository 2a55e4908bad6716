"""add_constant and OLS(...).fit().params, by the pseudo-inverse as statsmodels does."""
import numpy as np


def add_constant(data, prepend=True, has_constant="skip"):
    if has_constant != "add" or not prepend:
        raise NotImplementedError("statsmodels stand-in")
    x = np.asanyarray(data)
    if x.ndim == 1:
        x = x[:, None]
    return np.column_stack((np.ones(x.shape[0]), x))


class _Fit:
    def __init__(self, params):
        self.params = params


class OLS:
    def __init__(self, endog, exog):
        self.endog = np.asarray(endog, dtype=np.float64)
        self.exog = np.asarray(exog, dtype=np.float64)
        if self.endog.shape[0] != self.exog.shape[0]:
            raise ValueError("The indices for endog and exog are not aligned")
        if not (np.isfinite(self.endog).all() and np.isfinite(self.exog).all()):
            raise ValueError("exog contains inf or nans")

    def fit(self):
        return _Fit(np.dot(np.linalg.pinv(self.exog, rcond=1e-15), self.endog))
