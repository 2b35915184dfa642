// What the generated programs of P15 and P16 are compiled on top of.
#include "port.h"
#include <fstream>
#include <iostream>
#include <thread>
#include "typesystem/struct.h"
#include "typesystem/serialization/json.h"
#include "typesystem/schema/schema.h"
#include "typesystem/evolution/type_evolution.h"
#include "typesystem/reflection/reflection.h"

std::string SchemaAsJSON(const current::reflection::SchemaInfo& info);
std::string SchemaAsJSONAgain(const current::reflection::SchemaInfo& info);
std::string SchemaAsMinimalisticJSONAgain(const current::reflection::SchemaInfo& info);
std::string SchemaAsSource(const current::reflection::SchemaInfo& info, const std::string& nmspc);
