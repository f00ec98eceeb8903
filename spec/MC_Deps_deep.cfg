SPECIFICATION Spec
CONSTANTS
 WP = 5
 WT = 3
 N = 6
 Cells = {1, 2, 3}
 Mix = FALSE
INVARIANTS Sound Complete PieceFree OwnCell Past ReadsOnly
PROPERTY Ends
