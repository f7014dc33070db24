SPECIFICATION TraceSpec
CONSTANTS
  NF = 9
  NR = 9
  ZONE = 3
  MAXOBJ = 6
VIEW TraceView
