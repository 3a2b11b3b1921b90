import numpy as np


class RobustScaler(object):
    def __init__(self, **kwargs):
        pass

    def fit_transform(self, X):
        X = np.asarray(X, dtype=float)
        med = np.median(X, axis=0)
        q75, q25 = np.percentile(X, [75, 25], axis=0)
        scale = np.where(q75 - q25 == 0, 1.0, q75 - q25)
        return (X - med) / scale
