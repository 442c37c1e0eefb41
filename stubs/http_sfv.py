class Dictionary(dict):
    def parse(self, data): raise NotImplementedError
class List(list): pass
class Item:
    def __init__(self,v=None): self.value=v; self.params={}
class InnerList(list):
    def __init__(self,*a): super().__init__(*a); self.params={}
