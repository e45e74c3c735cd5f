"""Initialization of diagonal package."""
from .base import *
from .lindhard import *
from .magnetic import *
from .z2 import *
