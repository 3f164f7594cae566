SPECIFICATION Spec
CONSTANTS Theme = "choice"
          Size = 3
          MaxLen = 2
INVARIANTS Denotes LowerStackKept NoResidue ZeroWidth Bounded
PROPERTIES ErrorIsFinal Ends
CHECK_DEADLOCK TRUE
