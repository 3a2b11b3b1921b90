class BaseEstimator(object):
    pass
