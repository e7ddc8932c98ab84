---------------------------- MODULE SerialDesign ----------------------------
(* All short texts over an alphabet: a text that means something can be      *)
(* written again with the same meaning; what begins with a complete set is   *)
(* not another set (texts delimit themselves); meaning is unique.            *)
EXTENDS Serial
CONSTANTS MaxLen, Ints
VARIABLE ts
Alphabet == {<<"{">>, <<"}">>, <<"[">>, <<"]">>, <<",">>} \cup {<<"int", n>> : n \in Ints}
(* Texts that may still become a set: dead ends are not continued.           *)
Init == ts = <<>>
Follows(a, b) ==
  CASE a = "" -> b = "{"
    [] a = "{" -> b \in {"[", "}"}
    [] a = "[" -> b = "int"
    [] a = "int" -> b \in {",", "]"}
    [] a = "," -> b \in {"int", "["}
    [] a = "]" -> b \in {"[", ",", "}"}
    [] a = "}" -> b = "["
Next == /\ Len(ts) < MaxLen
        /\ \E t \in Alphabet : /\ Follows(IF ts = <<>> THEN "" ELSE ts[Len(ts)][1], t[1])
                               /\ ts' = Append(ts, t)
Spec == Init /\ [][Next]_ts
Whole(t) == LET r == SetAt(t, 1) IN r.ok /\ r.i = Len(t) + 1
RoundTrip == Whole(ts) => LET v == SetAt(ts, 1).v
                              w == WriteSet(v)
                          IN Whole(w) /\ SetAt(w, 1).v = v
Delimited == Whole(ts) => \A k \in 1..(Len(ts) - 1) : ~Whole(SubSeq(ts, 1, k))
SameRank == Whole(ts) => \A p, q \in SetAt(ts, 1).v : Len(p) = Len(q)
=============================================================================
