SPECIFICATION Spec
CONSTANTS
  Univ <- UnivDef
  Ids = {0, 1, 2}
  Updates <- UpdDef
INVARIANTS DictOK Laws Faithful FaithfulPlain TypeOK
CHECK_DEADLOCK FALSE
