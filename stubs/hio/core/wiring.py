class WireLog:
    pass
class WireLogDoer:
    pass
