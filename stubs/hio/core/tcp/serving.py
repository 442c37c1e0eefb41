class Server: pass
class ServerTls: pass
class ServerDoer: pass
class EchoServerDoer: pass
