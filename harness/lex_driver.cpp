// Lexing of arbitrary texts: Lexer.h, StateMachine.cpp, FloatLexer.h, IntegerLexer.h.
#include "drv.h"
#include "marco/Lexer/Lexer.h"
#include "marco/Parser/BaseModelica/StateMachine.h"
#include "marco/Parser/BaseModelica/Token.h"
#include "llvm/Support/MemoryBuffer.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>
using namespace drv;
using namespace marco;
using namespace marco::parser::bmodelica;
#include "kinds.h"

static json::Array bytes(llvm::StringRef s) {
  json::Array a;
  for (unsigned char c : s)
    a.push_back(static_cast<int64_t>(c));
  return a;
}
static json::Array pos(const SourcePosition &p) { return json::Array{p.line, p.column}; }

// Exact decimal expansion: the digits before and after the point.
static json::Object decimal(long double v) {
  static char buf[20000];
  int n = snprintf(buf, sizeof buf, "%.1200Lf", v);
  llvm::StringRef s(buf, n);
  auto parts = s.split('.');
  auto digits = [](llvm::StringRef d) {
    json::Array a;
    for (char c : d)
      a.push_back(static_cast<int64_t>(c - '0'));
    return a;
  };
  return json::Object{{"i", digits(parts.first.ltrim('0'))}, {"f", digits(parts.second.rtrim('0'))}};
}

static json::Object value(const Token &t) {
  switch (t.getKind()) {
  case TokenKind::Identifier:
  case TokenKind::String:
    return json::Object{{"s", bytes(t.getString())}};
  case TokenKind::Integer: {
    int64_t v = t.getInt();
    json::Object o{{"neg", v < 0}};
    json::Array d;
    for (char c : std::to_string(v))
      if (c != '-')
        d.push_back(static_cast<int64_t>(c - '0'));
    o["d"] = std::move(d);
    return o;
  }
  case TokenKind::FloatingPoint: {
    double v = t.getFloat();
    bool fin = std::isfinite(v) && !std::signbit(v);
    json::Object o{{"ok", (bool)(fin || v == INFINITY)}, {"top", v == INFINITY}};
    if (fin || v == INFINITY) {
      double inf = INFINITY, max = std::numeric_limits<double>::max();
      // The numbers that are rounded to v lie between the midpoints to its
      // neighbours, which a long double represents exactly.
      long double lo = v == inf ? (long double)max + ((long double)max - std::nextafter(max, 0.0)) / 2
                       : v == 0 ? 0.0L
                                : ((long double)std::nextafter(v, 0.0) + v) / 2;
      long double hi = v == inf    ? 0.0L
                       : v == max ? (long double)max + ((long double)max - std::nextafter(max, 0.0)) / 2
                                  : ((long double)v + std::nextafter(v, inf)) / 2;
      o["lo"] = decimal(lo);
      o["hi"] = decimal(hi);
    }
    return o;
  }
  default:
    return json::Object{};
  }
}

int main(int argc, char **argv) {
  return run(argc, argv, [](const json::Object &cmd, json::Object &out) {
    std::string text;
    for (const json::Value &c : arr(cmd, "text"))
      text.push_back(static_cast<char>(i(c)));
    auto file = std::make_shared<SourceFile>("test");
    auto buffer = llvm::MemoryBuffer::getMemBufferCopy(text);
    file->setMemoryBuffer(buffer.get());
    lexer::Lexer<StateMachine> lexer(file);
    json::Array toks;
    // One more scan than needed: the end of file has to stay.
    size_t limit = text.size() + 2, eof = 0;
    while (toks.size() < limit && eof < 2) {
      Token t = lexer.scan();
      eof += t.getKind() == TokenKind::EndOfFile;
      SourceRange r = t.getLocation(), q = lexer.getTokenPosition();
      json::Object o{{"k", kindName(t.getKind())}, {"b", pos(r.begin)}, {"e", pos(r.end)}};
      o["v"] = value(t);
      o["file"] = r.begin.file == file && r.end.file == file;
      toks.push_back(std::move(o));
    }
    out["toks"] = std::move(toks);
  });
}
