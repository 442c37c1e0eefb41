from . import doing, filing
from .doing import Doer, DoDoer, Doist
from . import tyming
from .tyming import Tymist, Tymee, Tymer
