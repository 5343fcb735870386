\* no behaviours
