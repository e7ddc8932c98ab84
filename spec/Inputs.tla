------------------------------- MODULE Inputs -------------------------------
(* Inputs and commands of the compiler driver.  Texts are byte sequences.   *)
EXTENDS Integers, Sequences, TLC

\* ------------------------------------------------------ kinds of inputs
Ext == [mo |-> <<109, 111>>, mlir |-> <<109, 108, 105, 114>>, bc |-> <<98, 99>>, ll |-> <<108, 108>>, o |-> <<111>>]
Kind(lang, form) == [language |-> lang, format |-> form]
OfExtension(e) ==
  CASE e = Ext.mo -> Kind("Modelica", "Source")
    [] e = Ext.mlir -> Kind("MLIR", "Source")
    [] e \in {Ext.bc, Ext.ll} -> Kind("LLVM_IR", "Source")
    [] e = Ext.o -> Kind("Unknown", "Object")
    [] OTHER -> Kind("Unknown", "Unknown")
\* What follows the last dot; nothing when there is no dot.
Extension(name) ==
  IF \E k \in DOMAIN name : name[k] = 46
  THEN LET d == CHOOSE k \in DOMAIN name : name[k] = 46 /\ \A j \in (k + 1)..Len(name) : name[j] # 46
       IN  SubSeq(name, d + 1, Len(name))
  ELSE <<>>
OfName(name) == OfExtension(Extension(name))
IsUnknown(k) == k = Kind("Unknown", "Unknown")

\* ---------------------------------------------------------------- inputs
\* from: "none", "file" or "buffer"
Input(from, what, kind) ==
  [empty |-> from = "none" \/ (from = "file" /\ what = <<>>), file |-> from # "buffer", buffer |-> from = "buffer",
   what |-> IF from = "none" THEN <<>> ELSE what, language |-> kind.language, format |-> kind.format]

\* -------------------------------------------------------------- commands
\* A redirection is a sequence holding the path, or empty.
Command(program) == [args |-> <<program>>, in |-> <<>>, out |-> <<>>, err |-> <<>>]
NonEmpty(s) == SelectSeq(s, LAMBDA x : x # <<>>)
Append1(c, a) == [c EXCEPT !.args = @ \o NonEmpty(<<a>>)]
AppendAll(c, as) == [c EXCEPT !.args = @ \o NonEmpty(as)]
Redirect(c, which, path) == [c EXCEPT ![which] = <<path>>]
=============================================================================
