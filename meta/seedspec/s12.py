PROP='C19'; FILE='src/keri/core/routing.py'
OLD='            if sserder.said != sdiger.qb64:  # signer\'s dig not match est evt\n                raise ValidationError(\n                    f"Bad trans indexed sig group at sn = "\n                    f"{snumber.sn} for reply = {serder.ked}."'
NEW='            if not sserder.estive:  # signer\'s dig not match est evt\n                raise ValidationError(\n                    f"Bad trans indexed sig group at sn = "\n                    f"{snumber.sn} for reply = {serder.ked}."'
NEEDS='a reply that cites the right sequence number and a digest of another event of the signer'
BREAKS='reply accepted under an establishment event its signer did not cite'
