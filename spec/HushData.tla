------------------------------ MODULE HushData ------------------------------
(* What the driver provides: the character codes of the texts that occur in   *)
(* this specification as string literals (TLC has no operators on strings),   *)
(* and what was observed.                                                     *)
EXTENDS Json
Texts == JsonDeserialize("texts.json")
Cases == ndJsonDeserialize("cases.ndjson")
Txt(s) == Texts[s]
=============================================================================
