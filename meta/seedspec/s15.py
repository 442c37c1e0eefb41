PROP='C29'; FILE='src/keri/vdr/eventing.py'
OLD='            rtoad, baks = self.getBackerState(ked)\n            bigers = self.valAnchorBigs(serder=serder,\n                                        seqner=seqner,\n                                        saider=saider,\n                                        bigers=bigers,\n                                        toad=rtoad,\n                                        baks=baks)\n\n            self.logEvent(pre=vci, sn=sn, serder=serder, seqner=seqner, saider=saider, bigers=bigers)\n\n        else:\n            raise ValidationError("Unsupported ilk = {} for evt = {}.".format(ilk, ked))\n\n    def revoke'
NEW='            rtoad, baks = self.toad, self.baks\n            bigers = self.valAnchorBigs(serder=serder,\n                                        seqner=seqner,\n                                        saider=saider,\n                                        bigers=bigers,\n                                        toad=rtoad,\n                                        baks=baks)\n\n            self.logEvent(pre=vci, sn=sn, serder=serder, seqner=seqner, saider=saider, bigers=bigers)\n\n        else:\n            raise ValidationError("Unsupported ilk = {} for evt = {}.".format(ilk, ked))\n\n    def revoke'
NEEDS='a registry whose backers changed, an issuance with seals and signatures of the new backers'
BREAKS='transaction event judged by backers that were replaced'
