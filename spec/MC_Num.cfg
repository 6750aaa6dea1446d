INIT Init
NEXT Next
CONSTANTS
  Window <- WindowDef
  Lead5 <- Lead5Def
INVARIANTS RoundTrip Minimal Canonical PrefixFree SignedAgree
CHECK_DEADLOCK FALSE
