PROP='C18'; FILE='src/keri/core/eventing.py'
OLD='                    rpre = cigar.verfer.qb64  # prefix of receiptor\n                    if rpre in wits:  # its a witness receipt write in .wigs\n                        index = wits.index(rpre)\n                        # create witness indexed signature\n                        wiger = Siger(raw=cigar.raw, index=index, verfer=cigar.verfer)\n                        self.db.wigs.add(keys=dgkey, val=wiger)  # write to db\n                    else:  # not witness rect write receipt to database\n                        self.db.rcts.add(keys=dgkey, val=(cigar.verfer, cigar))\n\n            wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]'
NEW='                    rpre = cigar.verfer.qb64  # prefix of receiptor\n                    if rpre in wits:  # its a witness receipt write in .wigs\n                        index = wits.index(rpre)\n                        # create witness indexed signature\n                        wiger = Siger(raw=cigar.raw, index=index, verfer=cigar.verfer)\n                        self.db.wigs.add(keys=dgkey, val=wiger)  # write to db\n                    else:  # not witness rect write receipt to database\n                        self.db.rcts.add(keys=dgkey, val=(cigar.verfer, cigar))\n\n            wits = list(self.kevers[pre].wits)'
NEEDS='a receipt couple of a witness that arrives with a message of receipts'
BREAKS='receipts of witnesses stored without being verified'
