#pragma once
#include <functional>
#include <map>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

using json = nlohmann::json;
using OpFn = std::function<json(const json&)>;

std::map<std::string, OpFn>& ops();
struct RegisterOp {
    RegisterOp(const std::string& n, OpFn f) { ops()[n] = f; }
};
#define OP(NAME)                              \
    static json op_##NAME(const json& rq);    \
    static RegisterOp reg_##NAME(#NAME, op_##NAME); \
    static json op_##NAME(const json& rq)

std::string toHex(const void* p, size_t n);
std::vector<char> fromHex(const std::string& s);
std::vector<char> readFile(const std::string& path);
