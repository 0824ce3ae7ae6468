"""wall clock bound at import time: checks may replace the functions of the time module"""
from time import time as now  # noqa: F401
