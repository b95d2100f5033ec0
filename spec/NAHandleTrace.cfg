SPECIFICATION Spec
CONSTANTS
  Paths <- TPaths
  Data <- TData
  Opts <- TOpts
  BadModes <- TBad
  Readable <- TReadable
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
