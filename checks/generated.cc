// The part the generated programs share: compiled once.
#include "generated.h"

using namespace current::reflection;

std::string SchemaAsJSON(const SchemaInfo& info) { return JSON(info); }
std::string SchemaAsJSONAgain(const SchemaInfo& info) { return JSON(ParseJSON<SchemaInfo>(JSON(info))); }
std::string SchemaAsMinimalisticJSONAgain(const SchemaInfo& info) {
  return JSON(ParseJSON<SchemaInfo, JSONFormat::Minimalistic>(JSON<JSONFormat::Minimalistic>(info)));
}
std::string SchemaAsSource(const SchemaInfo& info, const std::string& nmspc) {
  return ParseJSON<SchemaInfo>(JSON(info)).Describe<Language::Current>(NamespaceToExpose(nmspc));
}
