PROP='C10'; FILE='src/keri/app/habbing.py'
OLD='        del self.habs[hab.pre]\n        self.db.prefixes.remove(hab.pre)\n        if hab.pre'
NEW='        del self.habs[hab.pre]\n        if hab.pre'
NEEDS='an identifier removed from a habery that stays open'
BREAKS='removed identifier still counts as an own one'
