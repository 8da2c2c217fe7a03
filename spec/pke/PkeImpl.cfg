CONSTANTS MaxRecipients = 3
 Lists <- SomeLists
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
