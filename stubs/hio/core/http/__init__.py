from . import clienting, serving
class Server:
    pass
class ServerDoer:
    pass
class Client:
    pass
