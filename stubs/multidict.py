class MultiDict(list): pass
class CIMultiDict(list): pass
