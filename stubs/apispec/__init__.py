from . import core, yaml_utils
class APISpec: pass
