from . import ogling, decking, hicting
from .decking import Deck
from .hicting import Hict, Mict
import logging
logging.TRACE = 5
ogler = ogling.initOgler()
class ocfn: pass
