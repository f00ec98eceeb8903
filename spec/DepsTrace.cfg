SPECIFICATION Spec
CONSTANTS
 WP = 90
 WT = 30
