// The instruction table of the EVM (Yellow Paper, appendix H, with the EIPs up to Cancun): mnemonic and byte.
EVM(STOP, 0x00)
EVM(ADD, 0x01)
EVM(MUL, 0x02)
EVM(SUB, 0x03)
EVM(DIV, 0x04)
EVM(SDIV, 0x05)
EVM(MOD, 0x06)
EVM(SMOD, 0x07)
EVM(ADDMOD, 0x08)
EVM(MULMOD, 0x09)
EVM(EXP, 0x0a)
EVM(SIGNEXTEND, 0x0b)
EVM(LT, 0x10)
EVM(GT, 0x11)
EVM(SLT, 0x12)
EVM(SGT, 0x13)
EVM(EQ, 0x14)
EVM(ISZERO, 0x15)
EVM(AND, 0x16)
EVM(OR, 0x17)
EVM(XOR, 0x18)
EVM(NOT, 0x19)
EVM(BYTE, 0x1a)
EVM(SHL, 0x1b)
EVM(SHR, 0x1c)
EVM(SAR, 0x1d)
EVM(KECCAK256, 0x20)
EVM(ADDRESS, 0x30)
EVM(BALANCE, 0x31)
EVM(ORIGIN, 0x32)
EVM(CALLER, 0x33)
EVM(CALLVALUE, 0x34)
EVM(CALLDATALOAD, 0x35)
EVM(CALLDATASIZE, 0x36)
EVM(CALLDATACOPY, 0x37)
EVM(CODESIZE, 0x38)
EVM(CODECOPY, 0x39)
EVM(GASPRICE, 0x3a)
EVM(EXTCODESIZE, 0x3b)
EVM(EXTCODECOPY, 0x3c)
EVM(RETURNDATASIZE, 0x3d)
EVM(RETURNDATACOPY, 0x3e)
EVM(EXTCODEHASH, 0x3f)
EVM(BLOCKHASH, 0x40)
EVM(COINBASE, 0x41)
EVM(TIMESTAMP, 0x42)
EVM(NUMBER, 0x43)
EVM(PREVRANDAO, 0x44)
EVM(GASLIMIT, 0x45)
EVM(CHAINID, 0x46)
EVM(SELFBALANCE, 0x47)
EVM(BASEFEE, 0x48)
EVM(BLOBHASH, 0x49)
EVM(BLOBBASEFEE, 0x4a)
EVM(POP, 0x50)
EVM(MLOAD, 0x51)
EVM(MSTORE, 0x52)
EVM(MSTORE8, 0x53)
EVM(SLOAD, 0x54)
EVM(SSTORE, 0x55)
EVM(JUMP, 0x56)
EVM(JUMPI, 0x57)
EVM(PC, 0x58)
EVM(MSIZE, 0x59)
EVM(GAS, 0x5a)
EVM(JUMPDEST, 0x5b)
EVM(TLOAD, 0x5c)
EVM(TSTORE, 0x5d)
EVM(MCOPY, 0x5e)
EVM(PUSH0, 0x5f)
EVM(PUSH1, 0x60)
EVM(PUSH2, 0x61)
EVM(PUSH3, 0x62)
EVM(PUSH4, 0x63)
EVM(PUSH5, 0x64)
EVM(PUSH6, 0x65)
EVM(PUSH7, 0x66)
EVM(PUSH8, 0x67)
EVM(PUSH9, 0x68)
EVM(PUSH10, 0x69)
EVM(PUSH11, 0x6a)
EVM(PUSH12, 0x6b)
EVM(PUSH13, 0x6c)
EVM(PUSH14, 0x6d)
EVM(PUSH15, 0x6e)
EVM(PUSH16, 0x6f)
EVM(PUSH17, 0x70)
EVM(PUSH18, 0x71)
EVM(PUSH19, 0x72)
EVM(PUSH20, 0x73)
EVM(PUSH21, 0x74)
EVM(PUSH22, 0x75)
EVM(PUSH23, 0x76)
EVM(PUSH24, 0x77)
EVM(PUSH25, 0x78)
EVM(PUSH26, 0x79)
EVM(PUSH27, 0x7a)
EVM(PUSH28, 0x7b)
EVM(PUSH29, 0x7c)
EVM(PUSH30, 0x7d)
EVM(PUSH31, 0x7e)
EVM(PUSH32, 0x7f)
EVM(DUP1, 0x80)
EVM(DUP2, 0x81)
EVM(DUP3, 0x82)
EVM(DUP4, 0x83)
EVM(DUP5, 0x84)
EVM(DUP6, 0x85)
EVM(DUP7, 0x86)
EVM(DUP8, 0x87)
EVM(DUP9, 0x88)
EVM(DUP10, 0x89)
EVM(DUP11, 0x8a)
EVM(DUP12, 0x8b)
EVM(DUP13, 0x8c)
EVM(DUP14, 0x8d)
EVM(DUP15, 0x8e)
EVM(DUP16, 0x8f)
EVM(SWAP1, 0x90)
EVM(SWAP2, 0x91)
EVM(SWAP3, 0x92)
EVM(SWAP4, 0x93)
EVM(SWAP5, 0x94)
EVM(SWAP6, 0x95)
EVM(SWAP7, 0x96)
EVM(SWAP8, 0x97)
EVM(SWAP9, 0x98)
EVM(SWAP10, 0x99)
EVM(SWAP11, 0x9a)
EVM(SWAP12, 0x9b)
EVM(SWAP13, 0x9c)
EVM(SWAP14, 0x9d)
EVM(SWAP15, 0x9e)
EVM(SWAP16, 0x9f)
EVM(LOG0, 0xa0)
EVM(LOG1, 0xa1)
EVM(LOG2, 0xa2)
EVM(LOG3, 0xa3)
EVM(LOG4, 0xa4)
EVM(CREATE, 0xf0)
EVM(CALL, 0xf1)
EVM(CALLCODE, 0xf2)
EVM(RETURN, 0xf3)
EVM(DELEGATECALL, 0xf4)
EVM(CREATE2, 0xf5)
EVM(STATICCALL, 0xfa)
EVM(REVERT, 0xfd)
EVM(INVALID, 0xfe)
EVM(SELFDESTRUCT, 0xff)
