from . import ec, utils
