"""Initialization of base package."""
from .constants import *
from .kpoints import *
from .lattice import *
