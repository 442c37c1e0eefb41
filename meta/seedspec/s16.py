PROP='C30'; FILE='src/keri/vdr/verifying.py'
OLD='                    if farCreder.schema != nodeSchema:\n                        scraw'
NEW='                    if farCreder.schema != nodeSchema and farCreder.israid != creder.israid:\n                        scraw'
NEEDS='a chained credential of the wrong schema from the same issuer'
BREAKS='credential chain accepted whose edge names another schema'
