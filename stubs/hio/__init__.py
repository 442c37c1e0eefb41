__version__ = "stub"
