// Reference decoder of encoded relational operators, from the tables of README.md.
#pragma once
#include "relref.h"

namespace rr {
struct RelDecoded {
  enum Kind { Accept, Reject, Unspecified } kind = Accept;
  Chain chain;
};
inline RelDecoded decodeRel(const Bytes &b) {
  RelDecoded d;
  bool unspec = false;
  size_t p = 0;
  auto reject = [&] { d.kind = unspec ? RelDecoded::Unspecified : RelDecoded::Reject; return d; };
  while (p < b.size()) {
    unsigned char c = b[p++];
    if (c == 0x71 || c == 0x72) {
      Decoded e = ref::decode(b, p);
      if (e.kind == Decoded::Unspecified) unspec = true;
      if (e.kind == Decoded::Reject) return reject();
      if (e.kind == Decoded::Unspecified) {  // where it ends is not known
        d.kind = RelDecoded::Unspecified;
        return d;
      }
      p += e.used;
      OpSpec o{c == 0x71 ? OpSpec::Filter : OpSpec::Project, e.prog, {}, {}};
      if (c == 0x71 && e.prog.empty()) unspec = true;  // a filter without predicate
      d.chain.push_back(o);
      continue;
    }
    if (c != 0x73 && c != 0x74) return reject();
    OpSpec o{c == 0x73 ? OpSpec::Grouped : OpSpec::Ungrouped, {}, {}, {}};
    uint64_t n, v;
    if (c == 0x73) {
      if (p >= b.size() || b[p++] != 0x61) return reject();
      if (!readVarint(b, p, b.size(), n, unspec)) return reject();
      if (n > b.size() - p) return reject();
      for (uint64_t i = 0; i < n; ++i) {
        if (!readVarint(b, p, b.size(), v, unspec)) return reject();
        o.keys.push_back((int32_t)(uint32_t)v);
      }
    }
    if (!readVarint(b, p, b.size(), n, unspec)) return reject();
    if (n > b.size() - p) return reject();
    for (uint64_t i = 0; i < n; ++i) {
      if (p >= b.size()) return reject();
      unsigned char a = b[p++];
      AggSpec s{AggSpec::CountAll, NUL, 0};
      if (a != 0x10) {
        T t = (T)(a & 15);
        if (t < I32 || t > STR || t == DEC) return reject();
        switch (a >> 4) {
        case 1: s.k = AggSpec::Count; break;
        case 2: s.k = AggSpec::Sum; if (t == BOOL || t == STR) return reject(); break;
        case 3: s.k = AggSpec::Max; if (t == BOOL) return reject(); break;
        case 4: s.k = AggSpec::Min; if (t == BOOL) return reject(); break;
        default: return reject();
        }
        s.t = t;
        if (!readVarint(b, p, b.size(), v, unspec)) return reject();
        s.col = (int32_t)(uint32_t)v;
      }
      o.aggs.push_back(s);
    }
    if (p < b.size() && b[p] == 0) ++p;
    d.chain.push_back(o);
  }
  if (unspec) d.kind = RelDecoded::Unspecified;
  return d;
}
}  // namespace rr
