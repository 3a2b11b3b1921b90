"""Minimal stand-in for scikit-learn (not installed in this sandbox).

Only what resistics imports. Every linear solver is an exact ordinary least
squares, which is what the real estimators converge to on exact (noise free)
data; the checks only ever compare solver output on such data.
"""
