// Bridge between the reference values and the library (public API only).
#pragma once
#include "expr/runner.h"
#include "expr/operand.h"
#include <memory>

#include "ref.h"

namespace expr = dingodb::expr;

namespace real {
using ref::Val;
using ref::Row;
using ref::Bytes;

inline expr::Operand toOperand(const Val &v) {
  switch (v.t) {
  case ref::I32: return expr::Operand((int32_t)v.i);
  case ref::I64: return expr::Operand((int64_t)v.i);
  case ref::BOOL: return expr::Operand((bool)v.i);
  case ref::F32: return expr::Operand(v.f);
  case ref::F64: return expr::Operand(v.d);
  case ref::STR: return expr::Operand(expr::String(v.s));
  default: return expr::Operand(nullptr);
  }
}
inline expr::Tuple toTuple(const Row &r) {
  expr::Tuple t;
  for (auto &v : r) t.push_back(toOperand(v));
  return t;
}
// Reads an operand; tries the expected type first so that the usual case throws nothing.
inline bool readAs(const expr::Operand &o, ref::T t, Val &v) {
  if (o == nullptr) { v = Val(); return true; }
  try {
    switch (t) {
    case ref::I32: v = Val::i32(o.GetValue<int32_t>()); return true;
    case ref::I64: v = Val::i64(o.GetValue<int64_t>()); return true;
    case ref::BOOL: v = Val::b(o.GetValue<bool>()); return true;
    case ref::F32: v = Val::f32(o.GetValue<float>()); return true;
    case ref::F64: v = Val::f64(o.GetValue<double>()); return true;
    case ref::STR: v = Val::str(*o.GetValue<expr::String>()); return true;
    default: return false;
    }
  } catch (const std::exception &) {
    return false;
  }
}
inline Val fromOperand(const expr::Operand &o, ref::T hint = ref::NUL) {
  Val v;
  if (hint != ref::NUL && readAs(o, hint, v)) return v;
  for (ref::T t : ref::kTypes) if (readAs(o, t, v)) return v;
  v.t = ref::DEC;
  return v;
}
inline Row fromTuple(const expr::Tuple &t, const Row *hint = nullptr) {
  Row r;
  for (size_t i = 0; i < t.size(); ++i) r.push_back(fromOperand(t[i], hint && i < hint->size() ? (*hint)[i].t : ref::NUL));
  return r;
}
inline bool equals(const expr::Operand &o, const ref::Out &want) {
  if (want.kind == ref::Out::Any) return true;
  if (want.kind != ref::Out::Value) return false;
  Val v;
  if (want.v.t == ref::NUL) return o == nullptr;
  return readAs(o, want.v.t, v) && ref::matches(want, v);
}

// The program bytes in a heap block of exactly their size, so that any read beyond is caught.
class Code {
 public:
  explicit Code(const Bytes &b) : m_len(b.size()), m_p((unsigned char *)malloc(b.size() ? b.size() : 1)) { memcpy(m_p, b.data(), b.size()); }
  ~Code() {
    scribble();
    free(m_p);
  }
  Code(const Code &) = delete;
  const unsigned char *data() const { return m_p; }
  size_t size() const { return m_len; }
  // The caller may use the memory for something else as soon as decoding is done.
  void scribble() { memset(m_p, 0xEE, m_len); }

 private:
  size_t m_len;
  unsigned char *m_p;
};

struct Result {
  bool error = false;  // an exception was raised
  std::string what;
  expr::Operand v;
};
inline Result run(const expr::Runner &r) {
  Result x;
  try {
    r.Run();
    x.v = r.Get();
  } catch (const std::exception &e) {
    x.error = true;
    x.what = e.what();
  }
  return x;
}
inline std::string show(const Result &r) { return r.error ? "<error " + r.what + ">" : ref::show(fromOperand(r.v)); }
inline bool agrees(const Result &r, const ref::Out &want) {
  if (want.kind == ref::Out::Any) return true;
  if (want.kind == ref::Out::Error) return r.error;
  return !r.error && equals(r.v, want);
}
}  // namespace real
