class Server:
    pass
class Porter:
    pass
