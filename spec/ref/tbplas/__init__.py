"""Initialization of TBPlaS package."""
from .adapter import *
from .base import *
from .builder import *
from .diagonal import *
from .materials import *
from .tbpm import *
from .parallel import *
from .utils import *
from .visual import *
