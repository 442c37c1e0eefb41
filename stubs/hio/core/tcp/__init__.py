from . import serving, clienting
class ServerTls: pass
class Server: pass
class ServerDoer: pass
class Client: pass
