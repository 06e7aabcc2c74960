// Reference decoder of encoded expressions, from the tables of README.md.
#pragma once
#include "ref.h"

namespace ref {
struct Decoded {
  enum Kind { Accept, Reject, Unspecified } kind = Accept;
  Prog prog;
  size_t used = 0;       // bytes consumed, the end marker included
  int64_t maxVar = -1;   // largest variable index
  bool negVar = false;   // some index is negative
};

// Reads a varint; false if truncated. `overlong`: more than 10 bytes, which Protocol Buffers do not allow.
inline bool readVarint(const Bytes &b, size_t &p, size_t end, uint64_t &v, bool &overlong) {
  v = 0;
  int shift = 0;
  size_t n = 0;
  for (;;) {
    if (p >= end) return false;
    unsigned char c = b[p++];
    if (shift < 64) v |= (uint64_t)(c & 0x7f) << shift;
    shift += 7;
    if (++n > 10) overlong = true;
    if (!(c & 0x80)) return true;
  }
}

inline Decoded decode(const Bytes &b, size_t from = 0) {
  Decoded d;
  static std::vector<const Op *> byCode;  // index: first byte << 8 | second byte, or the one byte
  if (byCode.empty()) {
    byCode.assign(65536 + 256, nullptr);
    for (auto &o : ops()) byCode[o.code.size() == 1 ? 65536 + o.code[0] : o.code[0] << 8 | o.code[1]] = &o;
  }
  size_t p = from;
  bool unspec = false;
  auto reject = [&] { d.kind = unspec ? Decoded::Unspecified : Decoded::Reject; return d; };
  while (p < b.size()) {
    unsigned char c = b[p++];
    if (c == 0) break;
    int hi = c >> 4;
    T t = (T)(c & 15);
    bool typed = t >= I32 && t <= STR && t != DEC;
    if (c & 0x80) {
      if (p >= b.size()) return reject();
      unsigned char s = b[p++];
      if (c == 0xF0 || c == 0xFC) {
        int x = s >> 4, y = s & 15;
        if (x == y && x < 8) {  // a cast of a type to itself: accepting (as no operation) and rejecting are both fine
          unspec = true;
          continue;
        }
      }
      const Op *o = byCode[c << 8 | s];
      if (!o) return reject();
      d.prog.push_back(iOp(*o));
      continue;
    }
    if (hi == 5) {
      const Op *o = byCode[65536 + c];
      if (!o) return reject();
      d.prog.push_back(iOp(*o));
      continue;
    }
    if (hi == 0) {
      if (!typed) return reject();
      d.prog.push_back(iConst(Val(), t));
    } else if (hi == 1 || hi == 2) {
      if (t == BOOL) {
        d.prog.push_back(iConst(Val::b(hi == 1), BOOL));
      } else if (t == I32 || t == I64) {
        uint64_t v;
        if (!readVarint(b, p, b.size(), v, unspec)) return reject();
        d.prog.push_back(iConst(hi == 1 ? mkInt(t, (__int128)(int64_t)v) : mkInt(t, -(__int128)(int64_t)v), t));
      } else if (hi == 2 || !typed) {
        return reject();
      } else if (t == F32 || t == F64) {
        size_t n = t == F32 ? 4 : 8;
        if (b.size() - p < n) return reject();
        uint64_t u = 0;
        for (size_t i = 0; i < n; ++i) u = u << 8 | b[p++];
        d.prog.push_back(iConst(t == F32 ? Val::f32(f32FromBits((uint32_t)u)) : Val::f64(f64FromBits(u)), t));
      } else {
        uint64_t v;
        if (!readVarint(b, p, b.size(), v, unspec)) return reject();
        v = (uint32_t)v;
        if (v > b.size() - p) return reject();
        d.prog.push_back(iConst(Val::str(std::string((const char *)b.data() + p, v)), STR));
        p += v;
      }
    } else if (hi == 3) {
      if (t == DEC) unspec = true;  // a variable of an unsupported type: never readable, may be rejected
      else if (!typed) return reject();
      uint64_t v;
      if (!readVarint(b, p, b.size(), v, unspec)) return reject();
      int32_t i = (int32_t)(uint32_t)v;
      d.prog.push_back(iVar(t, i));
      if (i < 0) d.negVar = true;
      if (i > d.maxVar) d.maxVar = i;
    } else {
      return reject();
    }
  }
  d.used = p - from;
  if (unspec) d.kind = Decoded::Unspecified;
  return d;
}

// Runs an accepted program on a tuple with operand types checked: what must come out.
inline Eval runChecked(const Prog &p, const Row &tuple) {
  Eval e;
  for (auto &i : p) {
    if (i.k != Instr::Apply) {
      e.stack.push_back(i.k == Instr::Const ? i.v : i.k == Instr::Var ? tuple[i.index] : Val());
      continue;
    }
    size_t n = i.op->args.size();
    if (e.stack.size() < n) { e.kind = Out::Error; return e; }
    Val *a = &e.stack[e.stack.size() - n];
    bool mixed = false, anyNull = false;
    for (size_t k = 0; k < n; ++k) {
      if (a[k].isNull()) anyNull = true;
      else if (a[k].t != i.op->args[k]) mixed = true;
    }
    if (mixed) {
      // Operators which look at all their operands must raise; others may get away with it.
      e.kind = i.op->strict && !anyNull ? Out::Error : Out::Any;
      return e;
    }
    Out o = i.op->apply(a);
    if (o.kind != Out::Value) { e.kind = o.kind; return e; }
    if (o.ulp) e.ulp = o.ulp;
    e.stack.resize(e.stack.size() - n);
    e.stack.push_back(o.v);
  }
  if (e.stack.empty()) e.kind = Out::Error;  // Get() on nothing
  return e;
}
}  // namespace ref
