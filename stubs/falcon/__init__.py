"""Stand-in for falcon: status names, errors, request/response holders."""
from . import responders, media
HTTP_200="200 OK"; HTTP_202="202 Accepted"; HTTP_204="204 No Content"; HTTP_201="201 Created"
HTTP_400="400 Bad Request"; HTTP_401="401 Unauthorized"; HTTP_404="404 Not Found"; HTTP_406="406"; HTTP_412="412"; HTTP_500="500"
HTTP_NOT_FOUND=HTTP_404; HTTP_NOT_ACCEPTABLE=HTTP_406; HTTP_PRECONDITION_FAILED=HTTP_412; HTTP_OK=HTTP_200; HTTP_BAD_REQUEST=HTTP_400
class HTTPError(Exception):
    def __init__(self, status=None, *a, **k):
        super().__init__(status); self.status=status
class HTTPBadRequest(HTTPError):
    def __init__(self, *a, **k): super().__init__(HTTP_400)
class HTTPNotFound(HTTPError):
    def __init__(self, *a, **k): super().__init__(HTTP_404)
class App:
    def __init__(self,*a,**k): self.routes={}
    def add_route(self,p,r,**k): self.routes[p]=r
    def add_sink(self,*a,**k): pass
    def add_middleware(self,*a,**k): pass
class CORSMiddleware:
    def __init__(self,*a,**k): pass
class Request: pass
class Response: pass
def __getattr__(n):
    if n.startswith("HTTP_"): return n
    raise AttributeError(n)
