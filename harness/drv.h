// Script interpreter skeleton shared by every driver.
//
//   driver SCRIPT OUT [FROM]
//
// SCRIPT holds one JSON command per line.  Each command is executed against
// the real code and the command, extended with the observed results, is
// appended to OUT as one line, written (not buffered) before the next command
// starts: if the code under test dies, OUT tells which command killed it.
#ifndef VERIF_DRV_H
#define VERIF_DRV_H
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fcntl.h>
#include <fstream>
#include <string>
#include <sys/resource.h>
#include <unistd.h>

namespace drv {
namespace json = llvm::json;

inline int64_t i(const json::Value &v) { return *v.getAsInteger(); }
inline int64_t num(const json::Object &o, llvm::StringRef k, int64_t d = 0) {
  auto v = o.getInteger(k);
  return v ? *v : d;
}
inline std::string str(const json::Object &o, llvm::StringRef k) {
  auto v = o.getString(k);
  return v ? v->str() : std::string();
}
inline const json::Array &arr(const json::Object &o, llvm::StringRef k) {
  static json::Array empty;
  auto *a = o.getArray(k);
  return a ? *a : empty;
}
inline bool has(const json::Object &o, llvm::StringRef k) {
  return o.get(k) != nullptr;
}

template <typename Handler>
int run(int argc, char **argv, Handler handle, unsigned secondsPerCommand = 20) {
  if (argc < 3) {
    llvm::errs() << "usage: driver SCRIPT OUT [FROM]\n";
    return 2;
  }
  struct rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  std::ifstream in(argv[1]);
  size_t from = argc > 3 ? std::stoul(argv[3]) : 0;
  int fd = ::open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (!in || fd < 0) {
    llvm::errs() << "driver: cannot open files\n";
    return 2;
  }
  std::string line;
  size_t n = 0;
  while (std::getline(in, line)) {
    if (n++ < from)
      continue;
    auto value = json::parse(line);
    if (!value) {
      llvm::errs() << "driver: bad script line " << n << "\n";
      llvm::consumeError(value.takeError());
      return 2;
    }
    json::Object *obj = value->getAsObject();
    ::alarm(secondsPerCommand);
    json::Object out(*obj);
    handle(*obj, out);
    ::alarm(0);
    std::string text;
    llvm::raw_string_ostream os(text);
    os << json::Value(std::move(out)) << "\n";
    os.flush();
    size_t off = 0;
    while (off < text.size()) {
      ssize_t w = ::write(fd, text.data() + off, text.size() - off);
      if (w <= 0)
        return 2;
      off += w;
    }
  }
  ::close(fd);
  return 0;
}
} // namespace drv
#endif
