class Mnemonic:
    def __init__(self,*a,**k): pass
