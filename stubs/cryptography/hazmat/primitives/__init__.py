from . import hashes
