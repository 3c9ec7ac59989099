SPECIFICATION Spec
CONSTANTS BUG = "none"
 MaxFrames = 3
 MaxData = 2
 Plain = TRUE
INVARIANT Agree OneFrame
PROPERTY Stable
