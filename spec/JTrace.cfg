SPECIFICATION TraceSpec
POSTCONDITION TraceRead
CHECK_DEADLOCK FALSE
CONSTANTS
  Handles = {}
  Values = {}
  Paths = {}
  FilterTable = 0
  ScriptTable = 0
