"""Initialization of materials package."""
from .antimonene import *
from .graphene import *
from .phosphorene import *
from .xs2 import *
