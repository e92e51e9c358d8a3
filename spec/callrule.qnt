// -*- mode: Bluespec; -*-
/// What the caller sees of a call or a creation: shared by the machine of the
/// runtime (calls.qnt) and the machine of Yul programs (yul.qnt).
module callrule {
  import evm.* from "./evm"

  pure val NO_DATA: List[int] = [99,97,108,108,32,102,97,105,108,101,100,32,119,105,116,104,32,110,111,32,114,101,118,101,114,116,32,100,97,116,97]
  pure val TOO_LONG: List[int] = [111,117,116,32,108,101,110,103,116,104,32,105,115,32,110,111,116,32,101,110,111,117,103,104]
  pure val FAILED: List[int] = [99,97,108,108,32,99,111,110,116,114,97,99,116,32,102,97,105,108,101,100]
  pure val CREATE_FAILED: List[int] = [99,114,101,97,116,101,32,99,111,110,116,114,97,99,116,32,102,97,105,108,101,100]
  pure val CREATE2_FAILED: List[int] = [99,114,101,97,116,101,50,32,99,111,110,116,114,97,99,116,32,102,97,105,108,101,100]


  /// precompiles: the whole word is an address 1 .. 10
  pure def isPrecompile(w: int): bool = 1 <= w and w <= 10

  /// outcome of a call: 0 or 1 returned, or a revert
  type Outcome = { reverts: bool, flag: int, data: List[int], copied: int }
  pure def outcome(addr: int, status: int, ret: List[int], outLen: int): Outcome = {
    pure val n = length(ret)
    pure def answer(f: int, k: int): Outcome = { reverts: false, flag: f, data: [], copied: k }
    pure def failed(d: List[int]): Outcome = { reverts: true, flag: 0, data: d, copied: 0 }
    if (status != 0 and isPrecompile(addr)) answer(0, 0)
    else if (status == 2) failed(FAILED)
    else if (status == 0) answer(1, imin(n, outLen))
    else if (n >= outLen) answer(0, outLen)
    else if (n == 0) failed(NO_DATA)
    else if (n <= 1024) failed(ret)
    else failed(TOO_LONG)
  }

  /// code length prefix, code, constructor arguments
  pure def image(code: List[int], args: List[int]): List[int] =
    toBytes(length(code), 4).concat(code).concat(args)
}
