// Registers shared by the parts of the kcore driver.
#ifndef VERIF_KCORE_REGS_H_
#define VERIF_KCORE_REGS_H_
#include "kcore_app.h"
#include "koladata/internal/data_bag.h"
#include "koladata/internal/triples.h"

namespace kapp {
using namespace koladata::internal;  // NOLINT
using namespace kio;                 // NOLINT

struct Bag {
  DataBagImplPtr impl;
};
inline Regs<Bag>& Bags() {
  static auto* r = new Regs<Bag>('#');
  return *r;
}

inline std::string Dump(const DataBagImpl& bag, const DataBagIndex* index = nullptr) {
  debug::Triples t(index ? Ok(bag.ExtractContent(*index))
                         : Ok(bag.ExtractContent()));
  std::string r;
  for (const auto& x : t.attributes()) {
    r += "a:" + IdStr(x.object) + ":" + Pct(x.attribute) + ":" +
         ItemStr(x.value) + " ";
  }
  for (const auto& x : t.dicts()) {
    r += "d:" + IdStr(x.object) + ":" + ItemStr(x.key) + ":" +
         ItemStr(x.value) + " ";
  }
  for (const auto& [id, values] : t.lists()) {
    r += "l:" + IdStr(id) + ":" + ItemsStr(values) + " ";
  }
  return r;
}
}  // namespace kapp
#endif
