------------------------------- MODULE Props -------------------------------
(* Which property is being decided.  A guard that belongs to one property only *)
(* is written On("C01") => guard; when another property is decided it is left  *)
(* out, so that every check reports violations of its own property only.       *)
EXTENDS TLC, IOUtils
Prop == IOEnv.PROP
On(p) == Prop = p \/ Prop = "ALL"
=============================================================================
