PROP='C27'; FILE='src/keri/app/indirecting.py'
OLD="                else:\n                    self.cues.append(cue)\n\n            return b''"
NEW="\n            return b''"
NEEDS='two owners of mailboxes asking at the same time'
BREAKS='request to stream a mailbox is lost'
