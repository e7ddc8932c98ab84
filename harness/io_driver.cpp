// Inputs and commands: lib/IO.  Commands start io_child, which stays within
// the scratch directory of the driver.
#include "drv.h"
#include "marco/IO/Command.h"
#include "marco/IO/InputFile.h"
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <optional>
#include <vector>
using namespace drv;
using namespace marco::io;

static json::Array bytes(llvm::StringRef s) {
  json::Array a;
  for (unsigned char c : s)
    a.push_back(static_cast<int64_t>(c));
  return a;
}
static std::string text(const json::Array &a) {
  std::string s;
  for (const auto &v : a)
    s.push_back(static_cast<char>(i(v)));
  return s;
}
static const char *langs[] = {"Unknown", "Modelica", "BaseModelica", "MLIR", "LLVM_IR"};
static const char *forms[] = {"Source", "Object", "Unknown"};
static const char *name(Language l) { return langs[static_cast<unsigned>(l) % 5]; }
static const char *name(Format f) { return forms[static_cast<unsigned>(f) % 3]; }
static void put(json::Object &o, InputKind k) {
  o["language"] = name(k.getLanguage());
  o["format"] = name(k.getFormat());
}
static std::string slurp(const std::string &p) {
  std::string s;
  if (FILE *f = fopen(p.c_str(), "rb")) {
    for (int c; (c = fgetc(f)) != EOF;)
      s.push_back(c);
    fclose(f);
  }
  return s;
}
static void spit(const std::string &p, const std::string &s) {
  FILE *f = fopen(p.c_str(), "wb");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}

int main(int argc, char **argv) {
  std::string child = std::string(argv[0]);
  child = child.substr(0, child.rfind('/') + 1) + "io_child";
  char dirbuf[] = "/tmp/verif_ioXXXXXX";
  std::string dir = mkdtemp(dirbuf);
  std::optional<Command> command;
  auto file = [&](int64_t k) { return dir + "/f" + std::to_string(k); };
  auto snapshot = [&] {
    json::Array a;
    for (int k = 0; k < 4; ++k)
      a.push_back(bytes(slurp(file(k))));
    return a;
  };
  int rc = run(argc, argv, [&](const json::Object &cmd, json::Object &out) {
    std::string op = str(cmd, "op");
    if (op == "extension" || op == "name") {
      std::string n = text(arr(cmd, "name"));
      InputKind k = op == "name" ? InputKind::getFromFullFileName(n) : InputKind::getFromExtension(n);
      put(out, k);
      out["unknown"] = k.isUnknown();
    } else if (op == "input") {
      std::string from = str(cmd, "from"), what = text(arr(cmd, "what"));
      const auto &ko = *cmd.getObject("kind");
      unsigned l = 0, f = 0;
      while (str(ko, "language") != langs[l]) ++l;
      while (str(ko, "format") != forms[f]) ++f;
      InputKind kind(static_cast<Language>(l), static_cast<Format>(f));
      auto buffer = llvm::MemoryBuffer::getMemBuffer(what);
      InputFile in = from == "none" ? InputFile() : from == "file" ? InputFile(what, kind) : InputFile(buffer.get(), kind);
      InputFile copy = in;
      json::Object o;
      o["empty"] = copy.isEmpty();
      o["file"] = copy.isFile();
      o["buffer"] = copy.isBuffer();
      o["what"] = copy.isBuffer() ? bytes(copy.getBuffer()->getBuffer()) : copy.isFile() ? bytes(copy.getFile()) : json::Array{};
      put(o, copy.getKind());
      out["input"] = std::move(o);
    } else if (op == "command") {
      command.emplace(child);
      out["program"] = bytes(child);
      for (int k = 0; k < 4; ++k)
        spit(file(k), text(*arr(cmd, "files")[k].getAsArray()));
    } else if (op == "arg") {
      std::string a = text(arr(cmd, "arg"));
      if (cmd.getBoolean("c").value_or(false))
        command->appendArg(a.c_str());
      else
        command->appendArg(llvm::StringRef(a));
    } else if (op == "args") {
      std::vector<std::string> as;
      for (const auto &a : arr(cmd, "args"))
        as.push_back(text(*a.getAsArray()));
      std::vector<const char *> ps;
      for (const auto &a : as)
        ps.push_back(a.c_str());
      command->appendArgs(ps);
    } else if (op == "redirect") {
      std::string w = str(cmd, "which"), f = file(num(cmd, "file"));
      if (w == "in")
        command->setStdinRedirect(f);
      else if (w == "out")
        command->setStdoutRedirect(f);
      else
        command->setStderrRedirect(f);
    } else if (op == "exec" || op == "fail") {
      int64_t code = num(cmd, "code");
      bool die = op == "fail" && cmd.getBoolean("die").value_or(false);
      std::string report = dir + "/report";
      ::unlink(report.c_str());
      setenv("VERIF_IO_REPORT", report.c_str(), 1);
      setenv("VERIF_IO_CODE", std::to_string(code).c_str(), 1);
      setenv("VERIF_IO_DIE", die ? "1" : "", 1);
      setenv("VERIF_IO_NOIN", cmd.getBoolean("noin").value_or(false) ? "1" : "", 1);
      // What is not redirected is inherited.
      int in = ::dup(0), o1 = ::dup(1), e1 = ::dup(2), null = ::open("/dev/null", O_RDWR);
      ::dup2(null, 0), ::dup2(null, 1), ::dup2(null, 2);
      int status;
      if (op == "fail" && !die) {
        Command missing(dir + "/missing");
        status = missing.exec();
      } else {
        status = command->exec();
      }
      ::dup2(in, 0), ::dup2(o1, 1), ::dup2(e1, 2);
      ::close(in), ::close(o1), ::close(e1), ::close(null);
      out["status"] = status;
      if (op == "exec") {
        auto v = json::parse(slurp(report));
        if (v && v->getAsObject()) {
          json::Object &r = *v->getAsObject();
          std::string n = std::to_string(r.getArray("argv")->size());
          out["wrote"] = bytes("O" + n);
          out["complained"] = bytes("E" + n);
          out["argv"] = *r.get("argv");
          out["stdin"] = *r.get("stdin");
        } else {
          llvm::consumeError(v.takeError());
          out["argv"] = json::Array{};
          out["stdin"] = json::Array{};
          out["wrote"] = json::Array{};
          out["complained"] = json::Array{};
        }
        out["files"] = snapshot();
      }
    }
  });
  for (int k = 0; k < 4; ++k)
    ::unlink(file(k).c_str());
  ::unlink((dir + "/report").c_str());
  ::rmdir(dir.c_str());
  return rc;
}
