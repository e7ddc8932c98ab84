---------------------------- MODULE InputsTrace ----------------------------
(* Classification of names, input objects, and commands run for real: the   *)
(* program that is started reports what it was given.                       *)
EXTENDS Inputs, TraceKit
VARIABLES command, files   \* the command being put together; the scratch files' contents
vars == <<command, files>>

\* The files are f0..f3, by their index.
RunOn(c, f, e) ==
  /\ e.argv = c.args
  /\ e.stdin = (IF c.in = <<>> THEN <<>> ELSE f[c.in[1] + 1])
  /\ e.status = e.code
\* What the program writes to a redirected stream; whether the rest of a
\* longer file is cut off is not specified.
Written(old, new, t) == new = t \/ new = t \o SubSeq(old, Len(t) + 1, Len(old))
To(c, which, k) == c[which] = <<k>>
After(c, f, e) ==
  \A k \in DOMAIN f :
    CASE To(c, "out", k - 1) -> Written(f[k], e.files[k], e.wrote)
      [] To(c, "err", k - 1) -> Written(f[k], e.files[k], e.complained)
      [] OTHER -> e.files[k] = f[k]
TraceNext ==
  \/ /\ IsEvent("extension") /\ OfExtension(E.name) = Kind(E.language, E.format)
     /\ E.unknown = IsUnknown(OfExtension(E.name)) /\ UNCHANGED vars
  \/ /\ IsEvent("name") /\ OfName(E.name) = Kind(E.language, E.format)
     /\ E.unknown = IsUnknown(OfName(E.name)) /\ UNCHANGED vars
  \/ /\ IsEvent("input") /\ E.input = Input(E.from, E.what, IF E.from = "none" THEN Kind("Unknown", "Unknown") ELSE E.kind)
     /\ UNCHANGED vars
  \/ /\ IsEvent("command") /\ command' = Command(E.program) /\ files' = E.files
  \/ /\ IsEvent("arg") /\ command' = Append1(command, E.arg) /\ UNCHANGED files
  \/ /\ IsEvent("args") /\ command' = AppendAll(command, E.args) /\ UNCHANGED files
  \/ /\ IsEvent("redirect") /\ command' = Redirect(command, E.which, E.file) /\ UNCHANGED files
  \/ /\ IsEvent("exec") /\ RunOn(command, files, E) = TRUE
     /\ After(command, files, E) = TRUE /\ files' = E.files /\ UNCHANGED command
  \* a program that does not exist, or that dies, is a failure
  \/ /\ IsEvent("fail") /\ E.status # 0 /\ UNCHANGED vars
TraceInit == command = <<>> /\ files = <<>> /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<command, files, l>>
=============================================================================
