SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS K = 3
 Depth = 1
 Kinds = {"cv1","cv2","sys","util","flex","stream","sx7","sx8","ci"}
INVARIANTS StaysLegal Designated SetGet Commute
