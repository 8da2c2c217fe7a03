CONSTANTS MaxRecipients = 4
 Lists <- MoreLists
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
