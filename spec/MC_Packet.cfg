SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Bodies = {"zero", "ser", "tail"}
 Groups = {5}
INVARIANTS Top OnlyOne Holds Writes Complete
