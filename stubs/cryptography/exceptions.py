class InvalidSignature(Exception): pass
