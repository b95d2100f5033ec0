SPECIFICATION Spec
CONSTANTS
  Paths <- MCPaths
  Data <- MCData
  Opts <- MCOpts
  BadModes <- MCBad
  Readable <- MCReadable
INVARIANT WellFormed
PROPERTIES OneWrite ClosedStays
CHECK_DEADLOCK FALSE
