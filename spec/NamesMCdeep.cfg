SPECIFICATION Spec
CONSTANTS MaxLen = 9 Alphabet = {"a", ".", "/"} Out = TRUE
INVARIANTS Stays Splits2 AllDistinct Export
CHECK_DEADLOCK FALSE
