// Parsing of texts into syntax trees, and copies of the trees:
// lib/Parser/BaseModelica/Parser.cpp, lib/AST/BaseModelica.
#include "drv.h"
#include "marco/AST/BaseModelica/AST.h"
#include "marco/Parser/BaseModelica/Parser.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/DiagnosticIDs.h"
#include "clang/Basic/DiagnosticOptions.h"
#include "clang/Basic/FileManager.h"
#include "clang/Basic/SourceManager.h"
#include "llvm/Support/MemoryBuffer.h"
#include <cmath>
#include <malloc.h>
#include <map>
#include <sys/resource.h>
using namespace drv;
using namespace marco;
using namespace marco::ast::bmodelica;
using marco::ast::ASTNode;
using namespace marco::parser::bmodelica;
#include "kinds.h"

static std::string real(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
static std::string safe(llvm::StringRef s) { // any bytes, as ASCII
  std::string r;
  for (unsigned char c : s) {
    char b[8];
    if (c >= 128 || c < 32)
      snprintf(b, sizeof b, "\\%02x", c), r += b;
    else
      r += c;
  }
  return r;
}

// Dumps a tree in the form of the specification, and lists its nodes.
struct Dump {
  struct Rec {
    const ASTNode *node;
    int holder; // index of the node that contains it
  };
  std::vector<Rec> nodes;
  std::vector<int> stack;
  std::map<const ASTNode *, int> index;

  struct Scope {
    Dump &d;
    Scope(Dump &d, const ASTNode *n) : d(d) {
      d.index.emplace(n, d.nodes.size());
      d.nodes.push_back({n, d.stack.empty() ? -1 : d.stack.back()});
      d.stack.push_back(d.nodes.size() - 1);
    }
    ~Scope() { d.stack.pop_back(); }
  };

  static json::Value mk(llvm::StringRef k, std::string a, json::Array c = {}) {
    return json::Object{{"k", k}, {"a", safe(a)}, {"c", std::move(c)}};
  }
  static json::Value none() { return mk("none", ""); }
  static json::Value list(json::Array c) { return mk("list", "", std::move(c)); }
  template <typename R>
  json::Value all(R &&nodes) {
    json::Array c;
    for (const auto &n : nodes)
      c.push_back(go(&*n));
    return list(std::move(c));
  }
  static const char *opName(OperationKind k) {
    switch (k) {
    case OperationKind::unknown: return "unknown";
    case OperationKind::negate: return "negate";
    case OperationKind::add: return "add";
    case OperationKind::addEW: return "addEW";
    case OperationKind::subtract: return "subtract";
    case OperationKind::subtractEW: return "subtractEW";
    case OperationKind::multiply: return "multiply";
    case OperationKind::multiplyEW: return "multiplyEW";
    case OperationKind::divide: return "divide";
    case OperationKind::divideEW: return "divideEW";
    case OperationKind::ifelse: return "ifelse";
    case OperationKind::greater: return "greater";
    case OperationKind::greaterEqual: return "greaterEqual";
    case OperationKind::equal: return "equal";
    case OperationKind::different: return "different";
    case OperationKind::lessEqual: return "lessEqual";
    case OperationKind::less: return "less";
    case OperationKind::land: return "land";
    case OperationKind::lor: return "lor";
    case OperationKind::lnot: return "lnot";
    case OperationKind::subscription: return "subscription";
    case OperationKind::powerOf: return "powerOf";
    case OperationKind::powerOfEW: return "powerOfEW";
    case OperationKind::range: return "range";
    }
    return "?";
  }

  json::Value go(const ASTNode *n) {
    Scope scope(*this, n);
    if (auto *x = n->dyn_cast<Root>())
      return mk("root", "", std::move(*all(x->getInnerClasses()).getAsObject()->getArray("c")));
    if (auto *x = n->dyn_cast<PartialDerFunction>())
      return mk("partial_der", x->getName().str(),
                json::Array{go(x->getDerivedFunction()), all(x->getIndependentVariables())});
    if (auto *x = n->dyn_cast<Class>()) {
      const char *k = "model", *flag = "";
      if (x->isa<Record>())
        k = "record";
      if (x->isa<Package>())
        k = "package";
      if (auto *f = x->dyn_cast<StandardFunction>())
        k = "function", flag = f->isPure() ? "pure" : "impure";
      json::Array c{mk("flag", flag), all(x->getVariables()), all(x->getEquationSections()),
                    all(x->getAlgorithms()), all(x->getInnerClasses())};
      if (x->isExternal())
        c.push_back(mk("external", x->getExternalLanguage().str(),
                       json::Array{x->hasExternalFunctionCall() ? go(x->getExternalFunctionCall()) : none(),
                                   x->hasExternalAnnotation() ? go(x->getExternalAnnotation()) : none()}));
      else
        c.push_back(none());
      c.push_back(x->hasAnnotation() ? go(x->getAnnotation()) : none());
      return mk(k, x->getName().str(), std::move(c));
    }
    if (auto *x = n->dyn_cast<ExternalFunctionCall>())
      return mk("extcall", x->getCallee().str(),
                json::Array{x->hasDestination() ? go(x->getDestination()) : none(), all(x->getArguments())});
    if (auto *x = n->dyn_cast<Annotation>())
      return mk("annotation", "", json::Array{go(x->getProperties())});
    if (auto *x = n->dyn_cast<ClassModification>())
      return mk("classmod", "", std::move(*all(x->getArguments()).getAsObject()->getArray("c")));
    if (auto *x = n->dyn_cast<ElementModification>())
      return mk("elementmod", x->getName().str(),
                json::Array{mk("flag", x->hasEachProperty() ? "each" : ""), mk("flag", x->hasFinalProperty() ? "final" : ""),
                            x->hasModification() ? go(x->getModification()) : none()});
    if (auto *x = n->dyn_cast<Modification>())
      return mk("mod", "",
                json::Array{x->hasClassModification() ? go(x->getClassModification()) : none(),
                            x->hasExpression() ? go(x->getExpression()) : none()});
    if (auto *x = n->dyn_cast<Member>())
      return mk("member", x->getName().str(),
                json::Array{mk("flag", x->isPublic() ? "public" : "protected"), go(x->getTypePrefix()), go(x->getType()),
                            x->hasModification() ? go(x->getModification()) : none()});
    if (auto *x = n->dyn_cast<TypePrefix>()) {
      std::string v, io;
      if (x->isDiscrete())
        v += "discrete";
      if (x->isParameter())
        v += "parameter";
      if (x->isConstant())
        v += "constant";
      if (x->isInput())
        io += "input";
      if (x->isOutput())
        io += "output";
      return mk("prefix", v, json::Array{mk("io", io)});
    }
    if (auto *x = n->dyn_cast<BuiltInType>()) {
      const char *k = "?";
      switch (x->getBuiltInTypeKind()) {
      case BuiltInType::Kind::Boolean: k = "Boolean"; break;
      case BuiltInType::Kind::Integer: k = "Integer"; break;
      case BuiltInType::Kind::Real: k = "Real"; break;
      case BuiltInType::Kind::String: k = "String"; break;
      }
      return mk("type", k, json::Array{all(x->getDimensions())});
    }
    if (auto *x = n->dyn_cast<UserDefinedType>()) {
      json::Array ids;
      for (size_t i = 0; i < x->getPathLength(); ++i)
        ids.push_back(mk("id", x->getElement(i).str()));
      return mk("usertype", "",
                json::Array{mk("flag", x->isGlobalLookup() ? "global" : "local"), list(std::move(ids)),
                            all(x->getDimensions())});
    }
    if (auto *x = n->dyn_cast<ArrayDimension>()) {
      if (x->hasExpression())
        return mk("dim", "", json::Array{go(x->getExpression())});
      return mk("dim", std::to_string(x->getNumericSize()));
    }
    if (auto *x = n->dyn_cast<EquationSection>()) {
      json::Array c;
      for (size_t i = 0; i < x->getNumOfEquations(); ++i)
        c.push_back(go(x->getEquation(i)));
      return mk("equations", x->isInitial() ? "initial" : "", std::move(c));
    }
    if (auto *x = n->dyn_cast<Algorithm>()) {
      json::Array c;
      for (size_t i = 0; i < x->size(); ++i)
        c.push_back(go((*x)[i]));
      return mk("algorithm", x->isInitial() ? "initial" : "", std::move(c));
    }
    if (auto *x = n->dyn_cast<EqualityEquation>())
      return mk("eq", "", json::Array{go(x->getLhsExpression()), go(x->getRhsExpression())});
    if (auto *x = n->dyn_cast<ForEquation>()) {
      json::Array is, es;
      for (size_t i = 0; i < x->getNumOfForIndices(); ++i)
        is.push_back(go(x->getForIndex(i)));
      for (size_t i = 0; i < x->getNumOfEquations(); ++i)
        es.push_back(go(x->getEquation(i)));
      return mk("for_eq", "", json::Array{list(std::move(is)), list(std::move(es))});
    }
    if (auto *x = n->dyn_cast<IfEquation>()) {
      json::Array c{go(x->getIfCondition())}, l;
      for (size_t i = 0; i < x->getNumOfIfEquations(); ++i)
        l.push_back(go(x->getIfEquation(i)));
      c.push_back(list(std::move(l)));
      for (size_t i = 0; i < x->getNumOfElseIfConditions(); ++i) {
        json::Array p{go(x->getElseIfCondition(i))}, q;
        for (size_t j = 0; j < x->getNumOfElseIfEquations(i); ++j)
          q.push_back(go(x->getElseIfEquation(i, j)));
        p.push_back(list(std::move(q)));
        c.push_back(mk("pair", "", std::move(p)));
      }
      json::Array e;
      for (size_t i = 0; i < x->getNumOfElseEquations(); ++i)
        e.push_back(go(x->getElseEquation(i)));
      c.push_back(list(std::move(e)));
      return mk("if_eq", "", std::move(c));
    }
    if (auto *x = n->dyn_cast<WhenEquation>()) {
      json::Array c{go(x->getWhenCondition())}, l;
      for (size_t i = 0; i < x->getNumOfWhenEquations(); ++i)
        l.push_back(go(x->getWhenEquation(i)));
      c.push_back(list(std::move(l)));
      for (size_t i = 0; i < x->getNumOfElseWhenConditions(); ++i) {
        json::Array p{go(x->getElseWhenCondition(i))}, q;
        for (size_t j = 0; j < x->getNumOfElseWhenEquations(i); ++j)
          q.push_back(go(x->getElseWhenEquation(i, j)));
        p.push_back(list(std::move(q)));
        c.push_back(mk("pair", "", std::move(p)));
      }
      json::Array e;
      for (size_t i = 0; i < x->getNumOfElseEquations(); ++i)
        e.push_back(go(x->getElseEquation(i)));
      c.push_back(list(std::move(e)));
      return mk("when_eq", "", std::move(c));
    }
    if (auto *x = n->dyn_cast<StatementsBlock>()) {
      json::Array c;
      for (size_t i = 0; i < x->size(); ++i)
        c.push_back(go((*x)[i]));
      return mk("block", "", std::move(c));
    }
    if (auto *x = n->dyn_cast<IfStatement>()) {
      json::Array c{go(x->getIfCondition()), go(x->getIfBlock())};
      for (size_t i = 0; i < x->getNumOfElseIfBlocks(); ++i)
        c.push_back(mk("pair", "", json::Array{go(x->getElseIfCondition(i)), go(x->getElseIfBlock(i))}));
      c.push_back(x->hasElseBlock() ? go(x->getElseBlock()) : none());
      return mk("if_st", "", std::move(c));
    }
    if (auto *x = n->dyn_cast<ForStatement>())
      return mk("for_st", "", json::Array{all(x->getForIndices()), all(x->getStatements())});
    if (auto *x = n->dyn_cast<WhileStatement>())
      return mk("while_st", "", json::Array{go(x->getCondition()), all(x->getStatements())});
    if (auto *x = n->dyn_cast<WhenStatement>())
      return mk("when_st", "", json::Array{go(x->getCondition()), all(x->getStatements())});
    if (n->isa<BreakStatement>())
      return mk("break", "");
    if (n->isa<ReturnStatement>())
      return mk("return", "");
    if (auto *x = n->dyn_cast<AssignmentStatement>())
      return mk("assign", "", json::Array{go(x->getDestinations()), go(x->getExpression())});
    if (auto *x = n->dyn_cast<CallStatement>())
      return mk("call_st", "", json::Array{go(x->getCall())});
    if (auto *x = n->dyn_cast<ForIndex>())
      return mk("index", x->getName().str(), json::Array{x->hasExpression() ? go(x->getExpression()) : none()});
    if (auto *x = n->dyn_cast<Operation>())
      return mk("op", opName(x->getOperationKind()), std::move(*all(x->getArguments()).getAsObject()->getArray("c")));
    if (auto *x = n->dyn_cast<Constant>()) {
      if (auto v = x->visit([](const auto &v) -> std::pair<const char *, std::string> {
            using V = std::decay_t<decltype(v)>;
            if constexpr (std::is_same_v<V, bool>)
              return {"bool", v ? "true" : "false"};
            else if constexpr (std::is_same_v<V, int64_t>)
              return {"int", std::to_string(v)};
            else if constexpr (std::is_same_v<V, double>)
              return {"real", real(v)};
            else
              return {"string", v};
          });
          true)
        return mk(v.first, v.second);
    }
    if (auto *x = n->dyn_cast<ComponentReference>()) {
      if (x->isDummy())
        return mk("ref", "dummy");
      json::Array c;
      for (size_t i = 0; i < x->getPathLength(); ++i)
        c.push_back(go(x->getElement(i)));
      return mk("ref", x->isGlobalLookup() ? "global" : "local", std::move(c));
    }
    if (auto *x = n->dyn_cast<ComponentReferenceEntry>()) {
      json::Array c;
      for (size_t i = 0; i < x->getNumOfSubscripts(); ++i)
        c.push_back(go(x->getSubscript(i)));
      return mk("entry", x->getName().str(), std::move(c));
    }
    if (auto *x = n->dyn_cast<Subscript>()) {
      json::Array c;
      if (!x->isUnbounded())
        c.push_back(go(x->getExpression()));
      return mk("sub", "", std::move(c));
    }
    if (auto *x = n->dyn_cast<Call>())
      return mk("call", "", json::Array{go(x->getCallee()), all(x->getArguments())});
    if (auto *x = n->dyn_cast<ArrayConstant>()) {
      json::Array c;
      for (size_t i = 0; i < x->size(); ++i)
        c.push_back(go((*x)[i]));
      return mk("array", "", std::move(c));
    }
    if (auto *x = n->dyn_cast<ArrayForGenerator>()) {
      json::Array is;
      json::Value v = go(x->getValue());
      for (unsigned i = 0; i < x->getNumIndices(); ++i)
        is.push_back(go(x->getIndex(i)));
      return mk("array_for", "", json::Array{std::move(v), list(std::move(is))});
    }
    if (auto *x = n->dyn_cast<Tuple>()) {
      json::Array c;
      for (size_t i = 0; i < x->size(); ++i)
        c.push_back(go(x->getExpression(i)));
      return mk("tuple", "", std::move(c));
    }
    if (auto *x = n->dyn_cast<ExpressionFunctionArgument>())
      return mk("arg", "", json::Array{go(x->getExpression())});
    if (auto *x = n->dyn_cast<NamedFunctionArgument>())
      return mk("named", x->getName().str(), json::Array{go(x->getValue())});
    if (auto *x = n->dyn_cast<ReductionFunctionArgument>())
      return mk("reduction", "", json::Array{go(x->getExpression()), all(x->getForIndices())});
    return mk("?" + std::to_string(n->getKind()), "");
  }
};

// Changes one node in place through its setters.
static bool mutate(ASTNode *n, int64_t how) {
  auto one = [&] {
    auto c = std::make_unique<Constant>(n->getLocation());
    c->setValue((int64_t)987654321);
    return c;
  };
  auto swapExpr = [&](auto *x) { x->setExpression(one()); return true; };
  if (auto *x = n->dyn_cast<PartialDerFunction>()) {
    if (how % 2)
      x->setName("changed__");
    else
      x->setDerivedFunction(one());
    return true;
  }
  if (auto *x = n->dyn_cast<Class>()) {
    x->setName("changed__");
    if (how % 3 == 1)
      x->setVariables({});
    if (how % 3 == 2)
      x->setInnerClasses({});
    return true;
  }
  if (auto *x = n->dyn_cast<ExternalFunctionCall>()) { x->setCallee("changed__"); return true; }
  if (auto *x = n->dyn_cast<ElementModification>()) {
    if (how % 2)
      x->setName("changed__");
    else
      x->setEachProperty(!x->hasEachProperty());
    return true;
  }
  if (auto *x = n->dyn_cast<Modification>()) return swapExpr(x);
  if (auto *x = n->dyn_cast<Member>()) {
    if (how % 2)
      x->setName("changed__");
    else
      x->setPublic(!x->isPublic());
    return true;
  }
  if (auto *x = n->dyn_cast<TypePrefix>()) {
    x->setVariabilityQualifier(x->isConstant() ? VariabilityQualifier::parameter : VariabilityQualifier::constant);
    return true;
  }
  if (auto *x = n->dyn_cast<BuiltInType>()) {
    x->setBuiltInTypeKind(x->getBuiltInTypeKind() == BuiltInType::Kind::Real ? BuiltInType::Kind::String
                                                                             : BuiltInType::Kind::Real);
    return true;
  }
  if (auto *x = n->dyn_cast<UserDefinedType>()) { x->setPath({"changed__"}); return true; }
  if (auto *x = n->dyn_cast<ArrayDimension>()) {
    x->setSize((int64_t)987654321);
    return true;
  }
  if (auto *x = n->dyn_cast<EquationSection>()) { x->setInitial(!x->isInitial()); return true; }
  if (auto *x = n->dyn_cast<Algorithm>()) { x->setInitial(!x->isInitial()); return true; }
  if (auto *x = n->dyn_cast<EqualityEquation>()) {
    if (how % 2)
      x->setLhsExpression(one());
    else
      x->setRhsExpression(one());
    return true;
  }
  if (auto *x = n->dyn_cast<IfEquation>()) { x->setIfCondition(one()); return true; }
  if (auto *x = n->dyn_cast<WhenEquation>()) { x->setWhenCondition(one()); return true; }
  if (auto *x = n->dyn_cast<IfStatement>()) { x->setIfCondition(one()); return true; }
  if (auto *x = n->dyn_cast<WhileStatement>()) { x->setCondition(one()); return true; }
  if (auto *x = n->dyn_cast<WhenStatement>()) { x->setCondition(one()); return true; }
  if (auto *x = n->dyn_cast<AssignmentStatement>()) return swapExpr(x);
  if (auto *x = n->dyn_cast<ForIndex>()) {
    if (how % 2)
      x->setName("changed__");
    else
      x->setExpression(one());
    return true;
  }
  if (auto *x = n->dyn_cast<Operation>()) {
    if (how % 2)
      x->setOperationKind(OperationKind::unknown);
    else
      x->setArguments({});
    return true;
  }
  if (auto *x = n->dyn_cast<Constant>()) { x->setValue((int64_t)987654321); return true; }
  if (auto *x = n->dyn_cast<ComponentReference>()) {
    if (how % 2)
      x->setDummy(!x->isDummy());
    else
      x->setGlobalLookup(!x->isGlobalLookup());
    return !x->isDummy() || how % 2;
  }
  if (auto *x = n->dyn_cast<ComponentReferenceEntry>()) { x->setName("changed__"); return true; }
  if (auto *x = n->dyn_cast<Subscript>()) return swapExpr(x);
  if (auto *x = n->dyn_cast<Call>()) { x->setCallee(one()); return true; }
  if (auto *x = n->dyn_cast<ArrayForGenerator>()) { x->setValue(one()); return true; }
  if (auto *x = n->dyn_cast<ExpressionFunctionArgument>()) return swapExpr(x);
  if (auto *x = n->dyn_cast<NamedFunctionArgument>()) { x->setName("changed__"); return true; }
  if (auto *x = n->dyn_cast<ReductionFunctionArgument>()) return swapExpr(x);
  return false;
}

namespace {
struct Count : clang::DiagnosticConsumer {
  int errors = 0, others = 0;
  std::string first;
  void HandleDiagnostic(clang::DiagnosticsEngine::Level l, const clang::Diagnostic &d) override {
    if (l >= clang::DiagnosticsEngine::Error) {
      if (!errors++) {
        llvm::SmallString<64> s;
        d.FormatDiagnostic(s);
        first = s.str().str();
      }
    } else
      ++others;
  }
};
} // namespace

// The nodes: kind, container, recorded parent (both as places in the list;
// -1 none, -2 outside), range.
static json::Array listed(const Dump &d, const SourceFile *file) {
  json::Array r;
  for (auto &rec : d.nodes) {
    int parent = -1;
    if (auto *p = rec.node->getParent()) {
      auto it = d.index.find(p);
      parent = it == d.index.end() ? -2 : it->second;
    }
    auto loc = rec.node->getLocation();
    json::Array a{(int64_t)rec.node->getKind(), rec.holder + 1, parent + 1};
    if (rec.node->isa<Root>()) {
      for (int k = 0; k < 4; ++k)
        a.push_back(0);
    } else {
      bool here = loc.begin.file.get() == file && loc.end.file.get() == file;
      for (int64_t v : {loc.begin.line, loc.begin.column, loc.end.line, loc.end.column})
        a.push_back(here ? v : -1);
    }
    r.push_back(std::move(a));
  }
  return r;
}
static json::Array ids(const Dump &d, std::map<const void *, int> &names) {
  json::Array r;
  for (auto &rec : d.nodes)
    r.push_back(names.emplace(rec.node, names.size()).first->second);
  return r;
}

int main(int argc, char **argv) {
  mallopt(M_PERTURB, 0xa5);
  return run(argc, argv, [](const json::Object &cmd, json::Object &out) {
    std::string op = str(cmd, "op"), text;
    if (auto s = cmd.getString("text"))
      text = s->str();
    else
      for (auto &b : arr(cmd, "text"))
        text.push_back((char)i(b));
    if (auto *rep = cmd.getArray("repeat")) // [prefix, unit, times, middle, unit, suffix]
      {
        auto part = [&](size_t k) { return (*rep)[k].getAsString()->str(); };
        int64_t n = i((*rep)[2]);
        text = part(0);
        for (int64_t k = 0; k < n; ++k)
          text += part(1);
        text += part(3);
        for (int64_t k = 0; k < n; ++k)
          text += part(4);
        text += part(5);
      }
    auto buffer = llvm::MemoryBuffer::getMemBufferCopy(text, "test.mo");
    auto file = std::make_shared<SourceFile>("test.mo");
    file->setMemoryBuffer(buffer.get());

    if (op == "fuzz") { // the tokens, as the lexer hands them out
      lexer::Lexer<StateMachine> lexer(file);
      json::Array toks;
      for (;;) {
        Token t = lexer.scan();
        std::string s;
        if (t.isa<TokenKind::Identifier>() || t.isa<TokenKind::String>())
          s = safe(t.getString());
        else if (t.isa<TokenKind::Integer>())
          s = std::to_string(t.getInt());
        else if (t.isa<TokenKind::FloatingPoint>())
          s = real(t.getFloat());
        toks.push_back(json::Object{{"k", kindName(t.getKind())}, {"s", s}});
        if (t.isa<TokenKind::EndOfFile>() || toks.size() > 3000)
          break;
      }
      out["toks"] = std::move(toks);
    }

    Count count;
    llvm::IntrusiveRefCntPtr<clang::DiagnosticIDs> diagIDs(new clang::DiagnosticIDs());
    llvm::IntrusiveRefCntPtr<clang::DiagnosticOptions> opts(new clang::DiagnosticOptions());
    clang::DiagnosticsEngine diags(diagIDs, &*opts, &count, false);
    clang::SourceManagerForFile sm("test.mo", text);
    auto parse = [&]() {
      Parser parser(diags, sm.get(), file);
      return parser.parseRoot();
    };
    auto root = parse();
    bool ok = root.has_value() && *root;
    out["ok"] = ok;
    out["errors"] = count.errors;
    if (cmd.getBoolean("show").value_or(false))
      out["diag"] = count.first;
    if (ok && op == "deep") {
      // Whatever is accepted can also be copied, shown and destroyed.
      std::unique_ptr<ASTNode> copy = (*root)->clone();
      out["json"] = !llvm::formatv("{0}", copy->toJSON()).str().empty();
    }
    if (!ok || op == "deep")
      return;
    Dump d;
    json::Value tree = d.go(root->get());
    if (op != "copy") {
      out["json"] = !llvm::formatv("{0}", (*root)->toJSON()).str().empty();
      out["tree"] = std::move(tree);
      return;
    }
    // Copy the node the command points at, then change one side.
    std::map<const void *, int> names;
    ASTNode *subject = const_cast<ASTNode *>(d.nodes[num(cmd, "node") % d.nodes.size()].node);
    // A copy of the outermost node is what everything else is compared with.
    out["nodes"] = listed(d, file.get());
    json::Array lines;
    int64_t len = 0;
    for (char c : text)
      if (c == '\n')
        lines.push_back(len), len = 0;
      else
        ++len;
    lines.push_back(len);
    out["lines"] = std::move(lines);
    out["tree"] = std::move(tree);
    std::unique_ptr<ASTNode> copy = subject->clone();
    auto dump = [&](const ASTNode *n, const char *key) {
      Dump x;
      out[key] = x.go(n);
      return x;
    };
    Dump o = dump(subject, "sub"), c = dump(copy.get(), "copy");
    out["ids"] = ids(o, names);
    out["copyids"] = ids(c, names);
    out["subnodes"] = listed(o, file.get());
    out["copynodes"] = listed(c, file.get());
    bool left = num(cmd, "side") == 0;
    auto &side = left ? o : c;
    int64_t at = num(cmd, "at") % side.nodes.size();
    bool changed = mutate(const_cast<ASTNode *>(side.nodes[at].node), num(cmd, "how"));
    out["changed"] = changed;
    dump(subject, "sub2");
    dump(copy.get(), "copy2");
    root->reset();
    dump(copy.get(), "copy3");
  });
}
