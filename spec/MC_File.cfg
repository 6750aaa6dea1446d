SPECIFICATION Spec
CONSTANTS MaxEntries = 2
INVARIANTS NeverInvents WholeFileReads CutIsError AgreesWithRun
PROPERTIES Advances
CHECK_DEADLOCK FALSE
