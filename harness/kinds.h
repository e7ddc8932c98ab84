// Symbolic names of the token kinds.
static const char *kindName(marco::parser::bmodelica::TokenKind k) {
  using marco::parser::bmodelica::TokenKind;
  switch (k) {
  case TokenKind::None: return "None";
  case TokenKind::Begin: return "Begin";
  case TokenKind::EndOfFile: return "EndOfFile";
  case TokenKind::Error: return "Error";
  case TokenKind::Identifier: return "Identifier";
  case TokenKind::Integer: return "Integer";
  case TokenKind::FloatingPoint: return "FloatingPoint";
  case TokenKind::String: return "String";
  case TokenKind::Algorithm: return "Algorithm";
  case TokenKind::And: return "And";
  case TokenKind::Annotation: return "Annotation";
  case TokenKind::Block: return "Block";
  case TokenKind::Break: return "Break";
  case TokenKind::Class: return "Class";
  case TokenKind::Connect: return "Connect";
  case TokenKind::Connector: return "Connector";
  case TokenKind::Constant: return "Constant";
  case TokenKind::ConstrainedBy: return "ConstrainedBy";
  case TokenKind::Der: return "Der";
  case TokenKind::Discrete: return "Discrete";
  case TokenKind::Each: return "Each";
  case TokenKind::Else: return "Else";
  case TokenKind::ElseIf: return "ElseIf";
  case TokenKind::ElseWhen: return "ElseWhen";
  case TokenKind::Encapsulated: return "Encapsulated";
  case TokenKind::End: return "End";
  case TokenKind::Enumeration: return "Enumeration";
  case TokenKind::Equation: return "Equation";
  case TokenKind::Expandable: return "Expandable";
  case TokenKind::Extends: return "Extends";
  case TokenKind::External: return "External";
  case TokenKind::False: return "False";
  case TokenKind::Final: return "Final";
  case TokenKind::Flow: return "Flow";
  case TokenKind::For: return "For";
  case TokenKind::Function: return "Function";
  case TokenKind::If: return "If";
  case TokenKind::Import: return "Import";
  case TokenKind::Impure: return "Impure";
  case TokenKind::In: return "In";
  case TokenKind::Initial: return "Initial";
  case TokenKind::Inner: return "Inner";
  case TokenKind::Input: return "Input";
  case TokenKind::Loop: return "Loop";
  case TokenKind::Model: return "Model";
  case TokenKind::Not: return "Not";
  case TokenKind::Operator: return "Operator";
  case TokenKind::Or: return "Or";
  case TokenKind::Outer: return "Outer";
  case TokenKind::Output: return "Output";
  case TokenKind::Package: return "Package";
  case TokenKind::Parameter: return "Parameter";
  case TokenKind::Partial: return "Partial";
  case TokenKind::Protected: return "Protected";
  case TokenKind::Public: return "Public";
  case TokenKind::Pure: return "Pure";
  case TokenKind::Record: return "Record";
  case TokenKind::Redeclare: return "Redeclare";
  case TokenKind::Replaceable: return "Replaceable";
  case TokenKind::Return: return "Return";
  case TokenKind::Stream: return "Stream";
  case TokenKind::Then: return "Then";
  case TokenKind::True: return "True";
  case TokenKind::Type: return "Type";
  case TokenKind::When: return "When";
  case TokenKind::While: return "While";
  case TokenKind::Within: return "Within";
  case TokenKind::Plus: return "Plus";
  case TokenKind::PlusEW: return "PlusEW";
  case TokenKind::Minus: return "Minus";
  case TokenKind::MinusEW: return "MinusEW";
  case TokenKind::Product: return "Product";
  case TokenKind::ProductEW: return "ProductEW";
  case TokenKind::Division: return "Division";
  case TokenKind::DivisionEW: return "DivisionEW";
  case TokenKind::Pow: return "Pow";
  case TokenKind::PowEW: return "PowEW";
  case TokenKind::Dot: return "Dot";
  case TokenKind::Equal: return "Equal";
  case TokenKind::NotEqual: return "NotEqual";
  case TokenKind::Less: return "Less";
  case TokenKind::LessEqual: return "LessEqual";
  case TokenKind::Greater: return "Greater";
  case TokenKind::GreaterEqual: return "GreaterEqual";
  case TokenKind::Comma: return "Comma";
  case TokenKind::Semicolon: return "Semicolon";
  case TokenKind::Colon: return "Colon";
  case TokenKind::LPar: return "LPar";
  case TokenKind::RPar: return "RPar";
  case TokenKind::LSquare: return "LSquare";
  case TokenKind::RSquare: return "RSquare";
  case TokenKind::LCurly: return "LCurly";
  case TokenKind::RCurly: return "RCurly";
  case TokenKind::EqualityOperator: return "EqualityOperator";
  case TokenKind::AssignmentOperator: return "AssignmentOperator";
  }
  return "?";
}
