# """Initialization of builder package."""
from .advanced import *
from .base import HopDict
from .exceptions import *
from .overlap import *
from .primitive import *
from .sample import *
from .super import SuperCell, SCInterHopping
