// parts of proj.cpp that need the library's types
#pragma once
#include "buildcc.h"
#include "proj.h"
namespace proj {
void args_init(buildcc::ArgToolchain &tc);
buildcc::GenerateCb gen_cb(const std::string &id);
std::shared_ptr<buildcc::CustomBlobHandler> handler(int k, int which = 0);
} // namespace proj
