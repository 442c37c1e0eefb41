class Client: pass
class ClientDoer: pass
