SPECIFICATION Spec
CONSTANTS
 WP = 4
 WT = 2
 N = 4
 Cells = {1, 2}
 Mix = TRUE
INVARIANTS Sound Complete PieceFree OwnCell Past ReadsOnly
PROPERTY Ends
