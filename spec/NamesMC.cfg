SPECIFICATION Spec
CONSTANTS MaxLen = 7 Alphabet = {"a", ".", "/"} Out = TRUE
INVARIANTS Stays Splits2 AllDistinct Export
CHECK_DEADLOCK FALSE
