--------------------------- MODULE LexicalTables ---------------------------
(* The reserved words of Modelica, as sequences of character codes. *)
EXTENDS Integers, Sequences, TLC
Keywords ==
  (<<97, 108, 103, 111, 114, 105, 116, 104, 109>> :> "Algorithm") @@
  (<<97, 110, 100>> :> "And") @@
  (<<97, 110, 110, 111, 116, 97, 116, 105, 111, 110>> :> "Annotation") @@
  (<<98, 108, 111, 99, 107>> :> "Block") @@
  (<<98, 114, 101, 97, 107>> :> "Break") @@
  (<<99, 108, 97, 115, 115>> :> "Class") @@
  (<<99, 111, 110, 110, 101, 99, 116>> :> "Connect") @@
  (<<99, 111, 110, 110, 101, 99, 116, 111, 114>> :> "Connector") @@
  (<<99, 111, 110, 115, 116, 97, 110, 116>> :> "Constant") @@
  (<<99, 111, 110, 115, 116, 114, 97, 105, 110, 101, 100, 98, 121>> :> "ConstrainedBy") @@
  (<<100, 101, 114>> :> "Der") @@
  (<<100, 105, 115, 99, 114, 101, 116, 101>> :> "Discrete") @@
  (<<101, 97, 99, 104>> :> "Each") @@
  (<<101, 108, 115, 101>> :> "Else") @@
  (<<101, 108, 115, 101, 105, 102>> :> "ElseIf") @@
  (<<101, 108, 115, 101, 119, 104, 101, 110>> :> "ElseWhen") @@
  (<<101, 110, 99, 97, 112, 115, 117, 108, 97, 116, 101, 100>> :> "Encapsulated") @@
  (<<101, 110, 100>> :> "End") @@
  (<<101, 110, 117, 109, 101, 114, 97, 116, 105, 111, 110>> :> "Enumeration") @@
  (<<101, 113, 117, 97, 116, 105, 111, 110>> :> "Equation") @@
  (<<101, 120, 112, 97, 110, 100, 97, 98, 108, 101>> :> "Expandable") @@
  (<<101, 120, 116, 101, 110, 100, 115>> :> "Extends") @@
  (<<101, 120, 116, 101, 114, 110, 97, 108>> :> "External") @@
  (<<102, 97, 108, 115, 101>> :> "False") @@
  (<<102, 105, 110, 97, 108>> :> "Final") @@
  (<<102, 108, 111, 119>> :> "Flow") @@
  (<<102, 111, 114>> :> "For") @@
  (<<102, 117, 110, 99, 116, 105, 111, 110>> :> "Function") @@
  (<<105, 102>> :> "If") @@
  (<<105, 109, 112, 111, 114, 116>> :> "Import") @@
  (<<105, 109, 112, 117, 114, 101>> :> "Impure") @@
  (<<105, 110>> :> "In") @@
  (<<105, 110, 105, 116, 105, 97, 108>> :> "Initial") @@
  (<<105, 110, 110, 101, 114>> :> "Inner") @@
  (<<105, 110, 112, 117, 116>> :> "Input") @@
  (<<108, 111, 111, 112>> :> "Loop") @@
  (<<109, 111, 100, 101, 108>> :> "Model") @@
  (<<110, 111, 116>> :> "Not") @@
  (<<111, 112, 101, 114, 97, 116, 111, 114>> :> "Operator") @@
  (<<111, 114>> :> "Or") @@
  (<<111, 117, 116, 101, 114>> :> "Outer") @@
  (<<111, 117, 116, 112, 117, 116>> :> "Output") @@
  (<<112, 97, 99, 107, 97, 103, 101>> :> "Package") @@
  (<<112, 97, 114, 97, 109, 101, 116, 101, 114>> :> "Parameter") @@
  (<<112, 97, 114, 116, 105, 97, 108>> :> "Partial") @@
  (<<112, 114, 111, 116, 101, 99, 116, 101, 100>> :> "Protected") @@
  (<<112, 117, 98, 108, 105, 99>> :> "Public") @@
  (<<112, 117, 114, 101>> :> "Pure") @@
  (<<114, 101, 99, 111, 114, 100>> :> "Record") @@
  (<<114, 101, 100, 101, 99, 108, 97, 114, 101>> :> "Redeclare") @@
  (<<114, 101, 112, 108, 97, 99, 101, 97, 98, 108, 101>> :> "Replaceable") @@
  (<<114, 101, 116, 117, 114, 110>> :> "Return") @@
  (<<115, 116, 114, 101, 97, 109>> :> "Stream") @@
  (<<116, 104, 101, 110>> :> "Then") @@
  (<<116, 114, 117, 101>> :> "True") @@
  (<<116, 121, 112, 101>> :> "Type") @@
  (<<119, 104, 101, 110>> :> "When") @@
  (<<119, 104, 105, 108, 101>> :> "While") @@
  (<<119, 105, 116, 104, 105, 110>> :> "Within")
(* The symbols. *)
Symbols ==
  (<<43>> :> "Plus") @@
  (<<46, 43>> :> "PlusEW") @@
  (<<45>> :> "Minus") @@
  (<<46, 45>> :> "MinusEW") @@
  (<<42>> :> "Product") @@
  (<<46, 42>> :> "ProductEW") @@
  (<<47>> :> "Division") @@
  (<<46, 47>> :> "DivisionEW") @@
  (<<94>> :> "Pow") @@
  (<<46, 94>> :> "PowEW") @@
  (<<46>> :> "Dot") @@
  (<<61, 61>> :> "Equal") @@
  (<<60, 62>> :> "NotEqual") @@
  (<<60>> :> "Less") @@
  (<<60, 61>> :> "LessEqual") @@
  (<<62>> :> "Greater") @@
  (<<62, 61>> :> "GreaterEqual") @@
  (<<44>> :> "Comma") @@
  (<<59>> :> "Semicolon") @@
  (<<58>> :> "Colon") @@
  (<<40>> :> "LPar") @@
  (<<41>> :> "RPar") @@
  (<<91>> :> "LSquare") @@
  (<<93>> :> "RSquare") @@
  (<<123>> :> "LCurly") @@
  (<<125>> :> "RCurly") @@
  (<<61>> :> "EqualityOperator") @@
  (<<58, 61>> :> "AssignmentOperator")
=============================================================================
