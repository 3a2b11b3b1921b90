"""Minimal stand-in for scikit-learn (not installed in this sandbox).

Only what resistics imports. Every linear solver is an exact ordinary least
squares, which is what the real estimators converge to on exact (noise free)
data; the checks only ever compare the robust solvers on such data.
"""
import numpy as np
from sklearn.base import BaseEstimator


def _checked(X, y):
    X = np.asarray(X, dtype=float)
    y = np.asarray(y, dtype=float)
    if X.ndim != 2 or X.shape[0] < 1 or X.shape[1] < 1:
        raise ValueError(f"Found array with shape {X.shape}, at least one sample and feature required")
    if y.shape[0] != X.shape[0]:
        raise ValueError(f"Inconsistent numbers of samples {X.shape[0]} and {y.shape[0]}")
    if not (np.all(np.isfinite(X)) and np.all(np.isfinite(y))):
        raise ValueError("Input contains NaN or infinity")
    return X, y


class LinearRegression(BaseEstimator):
    def __init__(self, fit_intercept=True, normalize=False, n_jobs=None):
        self.fit_intercept = fit_intercept
        self.normalize = normalize
        self.n_jobs = n_jobs

    def fit(self, X, y, sample_weight=None):
        X, y = _checked(X, y)
        A = np.hstack([X, np.ones((X.shape[0], 1))]) if self.fit_intercept else X
        if sample_weight is not None:
            root = np.sqrt(np.asarray(sample_weight, dtype=float))
            A, y = A * root[:, None], y * root
        sol = np.linalg.lstsq(A, y, rcond=None)[0]
        if self.fit_intercept:
            self.coef_, self.intercept_ = sol[:-1], sol[-1]
        else:
            self.coef_, self.intercept_ = sol, 0.0
        return self

    def predict(self, X):
        return np.asarray(X, dtype=float) @ self.coef_ + self.intercept_


class HuberRegressor(LinearRegression):
    def __init__(self, epsilon=1.35, max_iter=100, alpha=0.0001, warm_start=False, fit_intercept=True, tol=1e-5):
        LinearRegression.__init__(self, fit_intercept)
        self.epsilon = epsilon
        self.alpha = alpha


class TheilSenRegressor(LinearRegression):
    def __init__(self, fit_intercept=True, copy_X=True, max_subpopulation=1e4, n_subsamples=None, max_iter=300,
                 tol=1e-3, random_state=None, n_jobs=None, verbose=False):
        LinearRegression.__init__(self, fit_intercept, n_jobs=n_jobs)
        self.max_subpopulation = max_subpopulation
        self.n_subsamples = n_subsamples


class RANSACRegressor(BaseEstimator):
    def __init__(self, base_estimator=None, min_samples=None, residual_threshold=None, max_trials=100):
        self.base_estimator = base_estimator
        self.residual_threshold = residual_threshold
        self.min_samples = min_samples
        self.max_trials = max_trials

    def fit(self, X, y):
        est = self.base_estimator
        if est is None:
            est = LinearRegression()
        self.estimator_ = est.fit(X, y)
        return self
