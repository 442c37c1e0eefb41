PROP='C07'; FILE='src/keri/core/coring.py'
OLD='        if major < 0 or major > 63 or minor < 0 or minor > 4095:'
NEW='        if major < 0 or major > 64 or minor < 0 or minor > 4096:'
NEEDS='a version with the major number 64'
BREAKS='version text of another version'
