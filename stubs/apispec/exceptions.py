class APISpecError(Exception): pass
