\* C16
CONSTANTS Names = {x, y, z} ARRAYS = 3 LISTS = 5
SPECIFICATION Spec
PROPERTIES Frame OldKept
