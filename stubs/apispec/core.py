VALID_METHODS={}
class APISpec: pass
