// Opcode table against the instruction set of the Ethereum virtual machine (Cancun).
#include "sx_api.h"
#include <cstring>
#include <sstream>
#include <string>
#include <nil/blueprint/zkevm/zkevm_opcodes.hpp>
using namespace nil::blueprint;
// reference: byte -> mnemonic, from the EVM specification
static const char *ref[256] = {
    "STOP", "ADD", "MUL", "SUB", "DIV", "SDIV", "MOD", "SMOD", "ADDMOD", "MULMOD", "EXP", "SIGNEXTEND", nullptr, nullptr, nullptr, nullptr,
    "LT", "GT", "SLT", "SGT", "EQ", "ISZERO", "AND", "OR", "XOR", "NOT", "BYTE", "SHL", "SHR", "SAR", nullptr, nullptr,
    "KECCAK256", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr,
    "ADDRESS", "BALANCE", "ORIGIN", "CALLER", "CALLVALUE", "CALLDATALOAD", "CALLDATASIZE", "CALLDATACOPY", "CODESIZE", "CODECOPY", "GASPRICE", "EXTCODESIZE", "EXTCODECOPY", "RETURNDATASIZE", "RETURNDATACOPY", "EXTCODEHASH",
    "BLOCKHASH", "COINBASE", "TIMESTAMP", "NUMBER", "PREVRANDAO", "GASLIMIT", "CHAINID", "SELFBALANCE", "BASEFEE", "BLOBHASH", "BLOBBASEFEE", nullptr, nullptr, nullptr, nullptr, nullptr,
    "POP", "MLOAD", "MSTORE", "MSTORE8", "SLOAD", "SSTORE", "JUMP", "JUMPI", "PC", "MSIZE", "GAS", "JUMPDEST", "TLOAD", "TSTORE", "MCOPY", "PUSH0",
    "PUSH1", "PUSH2", "PUSH3", "PUSH4", "PUSH5", "PUSH6", "PUSH7", "PUSH8", "PUSH9", "PUSH10", "PUSH11", "PUSH12", "PUSH13", "PUSH14", "PUSH15", "PUSH16",
    "PUSH17", "PUSH18", "PUSH19", "PUSH20", "PUSH21", "PUSH22", "PUSH23", "PUSH24", "PUSH25", "PUSH26", "PUSH27", "PUSH28", "PUSH29", "PUSH30", "PUSH31", "PUSH32",
    "DUP1", "DUP2", "DUP3", "DUP4", "DUP5", "DUP6", "DUP7", "DUP8", "DUP9", "DUP10", "DUP11", "DUP12", "DUP13", "DUP14", "DUP15", "DUP16",
    "SWAP1", "SWAP2", "SWAP3", "SWAP4", "SWAP5", "SWAP6", "SWAP7", "SWAP8", "SWAP9", "SWAP10", "SWAP11", "SWAP12", "SWAP13", "SWAP14", "SWAP15", "SWAP16",
    "LOG0", "LOG1", "LOG2", "LOG3", "LOG4", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr,
    nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr,
    nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr,
    nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr,
    nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr,
    "CREATE", "CALL", "CALLCODE", "RETURN", "DELEGATECALL", "CREATE2", nullptr, nullptr, nullptr, nullptr, "STATICCALL", nullptr, nullptr, "REVERT", "INVALID", "SELFDESTRUCT",
};
SX_CASE(byte_to_instruction) {
    std::size_t b = sx::u64("byte", 0, 255);
    auto &info = opcodes_info::instance();
    auto it = info.opcode_to_byte_map.right.find(b);
    bool present = it != info.opcode_to_byte_map.right.end();
    std::size_t v = sx::fork(b);
    SX_ASSERT(present == (ref[v] != nullptr), "a byte is known iff the machine defines it");
    if (present && ref[v]) {
        zkevm_opcode op = info.get_opcode_from_value(v);
        std::string s = opcode_to_string(op);
        SX_ASSERT(s == ref[v], "byte decodes to the specified instruction");
        SX_ASSERT(info.get_opcode_value(op) == v, "instruction encodes back to its byte");
        std::ostringstream os; os << op; SX_ASSERT(os.str() == s, "printed name");
    }
    SX_REACH("byte");
}
SX_CASE(instruction_to_byte) {
    std::size_t n = sx::u64("op", 0, 148);
    auto &info = opcodes_info::instance();
    SX_ASSERT(info.get_opcodes_amount() == 149, "number of instructions");
    zkevm_opcode op = (zkevm_opcode)n;
    std::size_t b = info.get_opcode_value(op);
    SX_ASSERT(b < 256, "encodes to a byte");
    SX_ASSERT(info.get_opcode_from_value(b) == op, "encoding is invertible");
    std::string s = opcode_to_string((zkevm_opcode)sx::fork(n));
    SX_ASSERT(ref[b] && s == ref[b], "instruction carries its specified byte");
    SX_REACH("instruction");
}
