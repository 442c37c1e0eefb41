class ConsoleServer: pass
class Console: pass
