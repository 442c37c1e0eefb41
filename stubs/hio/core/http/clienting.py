class Client:
    pass
class ClientDoer:
    pass
def openClient(*a, **k): raise NotImplementedError
