from . import http, tcp, serial, wiring
