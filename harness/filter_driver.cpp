// Variable filters: lib/VariableFilter.
#include "drv.h"
#include "marco/VariableFilter/VariableFilter.h"
#include "llvm/Support/Regex.h"
#include <cstdio>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace drv;
using namespace marco;

static json::Array bytes(llvm::StringRef s) {
  json::Array a;
  for (unsigned char c : s)
    a.push_back(static_cast<int64_t>(c));
  return a;
}
static std::string text(const json::Array &a) {
  std::string s;
  for (const auto &v : a)
    s.push_back(static_cast<char>(i(v)));
  return s;
}
static json::Array bound(bool has, long v) { return has ? bytes(std::to_string(v)) : json::Array{}; }

int main(int argc, char **argv) {
  // What the filters print to the standard error is how they report errors.
  int err = memfd_create("err", 0);
  return run(argc, argv, [&](const json::Object &cmd, json::Object &out) {
    std::string t = text(arr(cmd, "text"));
    ::ftruncate(err, 0);
    ::lseek(err, 0, SEEK_SET);
    int old = ::dup(2);
    ::dup2(err, 2);
    auto vf = VariableFilter::fromString(t);
    llvm::errs().flush();
    ::dup2(old, 2);
    ::close(old);
    struct stat st;
    ::fstat(err, &st);
    out["ok"] = vf.has_value();
    out["diagnostic"] = st.st_size > 0;
    if (!vf)
      out["enabled"] = false;
    else
      out["enabled"] = vf->isEnabled();
    json::Array answers;
    for (const auto &q : arr(cmd, "queries")) {
      if (!vf)
        break;
      const auto &o = *q.getAsObject();
      std::string name = text(arr(o, "name"));
      unsigned rank = num(o, "rank");
      auto fs = o.getBoolean("der").value_or(false) ? vf->getVariableDerInfo(name, rank)
                                                      : vf->getVariableInfo(name, rank);
      json::Array a;
      for (const auto &f : fs) {
        json::Array rs;
        for (const auto &r : f.getRanges())
          rs.push_back(json::Array{bound(r.hasLowerBound(), r.hasLowerBound() ? r.getLowerBound() : 0),
                                   bound(r.hasUpperBound(), r.hasUpperBound() ? r.getUpperBound() : 0)});
        a.push_back(json::Object{{"visible", f.isVisible()}, {"ranges", std::move(rs)}});
      }
      answers.push_back(std::move(a));
    }
    out["answers"] = std::move(answers);
    // The expressions of the text, as far as it has any: validity and matches
    // according to the library.
    json::Array rx;
    llvm::StringRef rest = llvm::StringRef(t).take_until([](char c) { return c == 0; });
    while (rest.contains('/')) {
      rest = rest.drop_front(rest.find('/') + 1);
      if (!rest.contains('/'))
        break;
      llvm::StringRef r = rest.take_front(rest.find('/'));
      rest = rest.drop_front(r.size() + 1);
      llvm::Regex re(r);
      json::Object o{{"r", bytes(r)}, {"valid", !r.empty() && re.isValid()}};
      json::Array hits;
      if (!r.empty() && re.isValid())
        for (const auto &q : arr(cmd, "queries")) {
          const auto &qo = *q.getAsObject();
          std::string name = text(arr(qo, "name"));
          if (qo.getBoolean("der").value_or(false))
            name = "der(" + name + ")";
          if (re.match(name))
            hits.push_back(bytes(name));
        }
      o["hits"] = std::move(hits);
      rx.push_back(std::move(o));
    }
    out["rx"] = std::move(rx);
  });
}
