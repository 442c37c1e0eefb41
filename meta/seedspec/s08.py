PROP='C15'; FILE='src/keri/core/eventing.py'
OLD='                        wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]\n                        werfers'
NEW='                        wits = list(kever.wits)\n                        werfers'
NEEDS='a receipt of an older event after the witness list was rotated'
BREAKS='witness receipts of an earlier event are judged by the present witness list'
