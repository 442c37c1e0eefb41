PROP='C15'; FILE='src/keri/core/eventing.py'
OLD='                        eserder = self.fetchEstEvent(pre, sn)  # latest est event wrt sn\n                        # may have'
NEW='                        eserder = self.kevers[pre].serder if self.kevers[pre].ilk != Ilks.ixn else self.fetchEstEvent(pre, sn)  # latest est event wrt sn\n                        # may have'
NEEDS='a receipt whose signer has rotated since'
BREAKS='a receipt is judged under another establishment event than the one it cites'
