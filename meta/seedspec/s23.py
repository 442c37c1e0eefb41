PROP='C37'; FILE='src/keri/core/mapping.py'
OLD='            if i >= 0 and i <= last and isinstance(atoms[i], Mapper):'
NEW='            if i <= last and isinstance(atoms[i], Mapper):'
NEEDS='disclosure of an aggregate by negative index'
BREAKS='element disclosed that was not asked for'
