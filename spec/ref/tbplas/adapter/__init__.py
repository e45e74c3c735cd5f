"""Initialization of adapter package."""
from .wannier90 import *
