"""Initialization of tbpm package."""
from .analysis import *
from .config import *
from .solver import *
