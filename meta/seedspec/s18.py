PROP='C06'; FILE='src/keri/kering.py'
OLD='        if pvrsn.major > 1:  # version1 vs but major > 1'
NEW='        if pvrsn.major > 2:  # version1 vs but major > 1'
NEEDS='a version string whose first version is of major 2'
BREAKS='version string of a message has a second spelling'
