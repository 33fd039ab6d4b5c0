// Entry points of the opcode contracts (Z01, Z02).
#include <string>
#include <iostream>
#include <nil/blueprint/zkevm/zkevm_opcodes.hpp>
using namespace nil::blueprint;
extern "C" {
#define EVM(name, byte) std::uint64_t vf_enum_##name() { return (std::uint64_t)zkevm_opcode::name; }
#include <evm_opcodes.inc>
#undef EVM
std::uint64_t vf_value(unsigned o) { return opcodes_info::instance().get_opcode_value((zkevm_opcode)o); }
std::uint64_t vf_from_value(std::uint64_t b) { return (std::uint64_t)opcodes_info::instance().get_opcode_from_value(b); }
std::uint64_t vf_amount() { return opcodes_info::instance().get_opcodes_amount(); }
void vf_string(unsigned o, std::string *out) { *out = opcode_to_string((zkevm_opcode)o); }
void vf_stream(unsigned o, std::ostream *out) { (*out) << (zkevm_opcode)o; }
}
