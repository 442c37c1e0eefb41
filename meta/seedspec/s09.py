PROP='C16'; FILE='src/keri/core/eventing.py'
OLD='                    if (dseal.i == serder.pre and\n                        dseal.s == serder.sner.numh and'
NEW='                    if (dseal.i == serder.pre and'
NEEDS='a delegation seal in an event of the delegator that names another sequence number'
BREAKS='a delegated event is accepted on a seal for another sequence number'
