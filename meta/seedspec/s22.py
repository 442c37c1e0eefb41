PROP='C36'; FILE='src/keri/core/mapping.py'
OLD='                if len(primitive.qb64) != len(val):  # not complete so invalid'
NEW='                if len(primitive.qb64) > len(val):  # not complete so invalid'
NEEDS='text that starts like a primitive and goes on'
BREAKS='text read back as something else from native form'
