INIT NoInit
NEXT NoNext
CONSTANTS Theme = "choice"
          Size = 3
          MaxLen = 2
CHECK_DEADLOCK FALSE
