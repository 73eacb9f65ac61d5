#pragma once
#include "term.hpp"
#include "smt.hpp"
#include <memory>
#include <set>

struct Cell { T t; u8 lo; };
struct Obj {
  u64 size; bool alive, heap, global, ro, harness; bool edge = false; std::string name; u32 site;
  std::vector<Cell> cells;
};
struct Ins {
  u16 opc; u8 w; u8 pred; int dst; int loc;      // loc: index into location strings
  std::vector<int> ops; std::vector<u64> imm; int callee; int tgt0, tgt1;
};
struct Block { std::vector<Ins> ins; std::vector<std::vector<int>> phiSrc; std::vector<int> phiDst; std::vector<int> preds; int ipdom; };
struct Fn {
  std::string name; bool lib; bool compiled; int nregs; int nargs; bool vararg; std::vector<Block> blocks; void* llvm; std::vector<T> consts;
  u64 execIns = 0, calls = 0;
};
struct Frame { Fn* fn; std::vector<T> regs; int bb, ip; int retReg; u32 sbase; bool harness; };
struct Ob { std::vector<T> pc; T cond; std::string kind, msg, loc; };
struct State {
  std::vector<Frame> st; std::vector<std::shared_ptr<Obj>> heap, stack; std::vector<T> pc;
  std::vector<std::pair<std::string, u64>> choices; std::map<std::string, int> names;
  i64 failAt; i64 allocs; u32 live; bool dead; bool ct; std::vector<std::string> trace; std::vector<T> freed;
  bool atJoin;
};

struct Violation { std::string kind, msg, loc; std::map<std::string, u64> model; std::vector<std::pair<std::string, u64>> choices; bool fromLanes; };
