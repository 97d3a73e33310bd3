#include "props.h"
namespace sim {
#define P(id, cls) void gen_##id(Rng&, Plan&); void exec_##id(const Plan&, const std::string&); static const char* cls_##id = cls;
#include "registry.def"
#undef P
const std::vector<PropDef>& registry() {
  static std::vector<PropDef> v{
#define P(id, cls) {#id, gen_##id, exec_##id, cls_##id},
#include "registry.def"
#undef P
  };
  return v;
}
}
