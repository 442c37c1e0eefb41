PROP='C13'; FILE='src/keri/core/eventing.py'
OLD='            if toader.num < 1 or toader.num > len(wits):  # out of bounds toad\n                raise ValueError(f"Invalid toad = {toader.num} for backers "\n                                 f"(wits)={wits} for event={ked}.")\n        else:\n            if toader.num != 0:  # invalid toad\n                raise ValueError(f"Invalid toad = {toader.num} for backers "\n                                 "(wits)={wits} for event={ked}.")\n\n        return tholder'
NEW='            if toader.num > len(wits):  # out of bounds toad\n                raise ValueError(f"Invalid toad = {toader.num} for backers "\n                                 f"(wits)={wits} for event={ked}.")\n        else:\n            if toader.num != 0:  # invalid toad\n                raise ValueError(f"Invalid toad = {toader.num} for backers "\n                                 "(wits)={wits} for event={ked}.")\n\n        return tholder'
NEEDS='an event with witnesses and a witness threshold of zero'
BREAKS='a witness threshold of zero with witnesses is taken'
