// Memory objects, symbolic addressing, race detection, state hashing.
#include "exec.h"
#include <algorithm>
using namespace llvm;
namespace tcs {

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 29; return h; }

Obj* Executor::find(State& s, uint64_t addr) {
  uint32_t id = addr >> 32; uint32_t r = id >> 25, i = id & ((1u << 25) - 1);
  if (r > 63) return nullptr;
  Region& R = s.reg[r]; if (i >= R.n) return nullptr;
  auto& c = R.d[i >> 7]; return c ? c->o[i & 127].p : nullptr;
}

Obj* Executor::wobj(State& s, uint64_t addr) {
  uint32_t id = addr >> 32; uint32_t r = id >> 25, i = id & ((1u << 25) - 1);
  Region& R = s.reg[r]; auto& c = R.d[i >> 7];
  if (c.p->rc > 1) c = Ref<Chunk>(new Chunk(*c.p));
  c->hv = false; auto& o = c->o[i & 127];
  if (o.p->rc > 1) o = Ref<Obj>(new Obj(*o.p));
  o->hv = false; return o.p;
}

uint64_t Executor::alloc(State& s, int region, uint64_t size, int kind, int fill, const char* name) {
  if (size > (1u << 26)) unsupported(s, "allocation of " + std::to_string(size) + " bytes");
  Region& R = s.reg[region]; uint32_t i = R.n++;
  if ((i >> 7) >= R.d.size()) R.d.push_back(Ref<Chunk>(new Chunk));
  auto& c = R.d[i >> 7]; if (c.p->rc > 1) c = Ref<Chunk>(new Chunk(*c.p));
  c->hv = false; Obj* o = new Obj; o->size = size; o->kind = kind; o->name = name; o->b.assign(size, (uint8_t)fill); c->o[i & 127] = Ref<Obj>(o);
  return ((uint64_t)(((uint32_t)region << 25) | i)) << 32;
}

void Executor::release(State& s, uint64_t addr) {
  uint32_t id = addr >> 32; uint32_t r = id >> 25, i = id & ((1u << 25) - 1);
  Region& R = s.reg[r]; auto& c = R.d[i >> 7]; if (c.p->rc > 1) c = Ref<Chunk>(new Chunk(*c.p));
  c->hv = false; c->o[i & 127] = Ref<Obj>();
  // with several threads, stack slots above the live ones are reused, so that equal situations have equal addresses
  if (s.multi && r >= 16 && r < 16 + MAXT) while (R.n) { auto& l = R.d[(R.n - 1) >> 7]; if (l->o[(R.n - 1) & 127]) break; R.n--; if (!(R.n & 127)) R.d.pop_back(); }
}

E Executor::byteAt(Obj* o, uint64_t off) { if (!o->s.empty() && o->s[off]) return o->s[off]; return mkC(8, o->b[off]); }
void Executor::setByte(Obj* o, uint64_t off, E e) {
  if (isC(e)) { o->b[off] = (uint8_t)e->lo; if (!o->s.empty()) o->s[off] = nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  o->s[off] = e; o->b[off] = 0;
}

Val Executor::readLeaf(Obj* o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8; bool conc = true;
  if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { conc = false; break; }
  if (conc) {
    if (w <= 64) { uint64_t v = 0; memcpy(&v, &o->b[off], n); return cv(v & maskw(w)); }
    u128 v = 0; memcpy(&v, &o->b[off], n); return {0, mkC128(w, v & mask128(w))};
  }
  E e = byteAt(o, off);
  for (unsigned i = 1; i < n; i++) e = mkConcat(byteAt(o, off + i), e);
  if (w != n * 8) e = mkExtract(e, 0, w);
  return w <= 64 ? fromE(e) : Val{0, e};
}

void Executor::writeLeaf(Obj* o, uint64_t off, unsigned w, const Val& v) {
  unsigned n = (w + 7) / 8;
  if (!v.e) { uint64_t c = v.c & maskw(w); memcpy(&o->b[off], &c, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  E e = v.e; if (w != n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) setByte(o, off + i, n == 1 ? e : mkExtract(e, i * 8, 8));
}

static unsigned lowZeros(E e) {
  switch (e->op) {
    case Op::Const: { if (!e->lo) return e->width; return __builtin_ctzll(e->lo); }
    case Op::Mul: return std::min<unsigned>(e->width, lowZeros(e->k[0]) + lowZeros(e->k[1]));
    case Op::Add: case Op::Sub: case Op::Or: case Op::Xor: return std::min(lowZeros(e->k[0]), lowZeros(e->k[1]));
    case Op::And: return std::max(lowZeros(e->k[0]), lowZeros(e->k[1]));
    case Op::Shl: return isC(e->k[1]) ? std::min<uint64_t>(e->width, lowZeros(e->k[0]) + e->k[1]->lo) : lowZeros(e->k[0]);
    case Op::Concat: { unsigned l = lowZeros(e->k[1]); return l == e->k[1]->width ? l + lowZeros(e->k[0]) : l; }
    case Op::ZExt: case Op::SExt: return lowZeros(e->k[0]);
    case Op::Ite: return std::min(lowZeros(e->k[1]), lowZeros(e->k[2]));
    default: return 0;
  }
}

// Make sure [addr, addr+n) is a valid range of one object; returns addr.
uint64_t Executor::checkRange(State& s, uint64_t addr, uint64_t n, bool wr, const char* what) {
  Obj* o = find(s, addr); uint64_t off = addr & 0xffffffffu;
  if (!o) {
    uint32_t id = addr >> 32; uint32_t r = id >> 25, i = id & ((1u << 25) - 1);
    if (addr < 4096) violation(s, "memory", std::string("null pointer ") + what);
    if (r >= 1 && r < 62 && i < s.reg[r].n) violation(s, "memory", std::string("use of released memory in ") + what);
    violation(s, "memory", std::string("wild pointer ") + what);
  }
  if (off + n > o->size) violation(s, "memory", std::string("out of bounds ") + what + " (offset " + std::to_string((int32_t)off) + " size " + std::to_string(n) + " object " + (o->name ? o->name : "") + "[" + std::to_string(o->size) + "])");
  if (wr && o->ro) violation(s, "memory", std::string("write to constant ") + (o->name ? o->name : ""));
  if (o->kind == KFunction) violation(s, "memory", std::string("data access to function"));
  return addr;
}

Executor::Loc Executor::resolve(State& s, const Val& a, uint64_t n, bool wr, const char* what) {
  Loc l;
  if (!a.e) { l.addr = checkRange(s, a.c, n, wr, what); if (s.multi) race(s, l.addr, n, wr); return l; }
  E ad = simp(s, a.e);
  while (ad->op == Op::Ite) { E q = ad; ad = decide(s, ad->k[0]) ? q->k[1] : q->k[2]; if (ad->op == Op::Ite) ad = simp(s, ad); }
  // an offset made of constants and truth values only: split on those instead of reading all candidates
  for (int round = 0; round < 8 && !isC(ad); round++) {
    E atom = nullptr; bool only = true; int budget = 60;
    std::function<void(E)> go = [&](E x) {
      if (!only || isC(x)) return; if (--budget < 0) { only = false; return; }
      if (x->width == 1) { atom = x; return; }
      switch (x->op) {
        case Op::Add: case Op::Sub: case Op::Mul: go(x->k[0]); go(x->k[1]); return;
        case Op::ZExt: case Op::SExt: case Op::Extract: go(x->k[0]); return;
        case Op::Ite: if (!isC(x->k[1]) || !isC(x->k[2])) { go(x->k[1]); go(x->k[2]); } atom = x->k[0]; return;
        default: only = false; return;
      } };
    go(ad); if (!only || !atom) break;
    decide(s, atom); E n = simp(s, ad); if (n == ad) break; ad = n;
  }
  uint64_t A = (uint64_t)s.model->ev.eval(ad);
  if (isC(ad)) { l.addr = checkRange(s, A, n, wr, what); if (s.multi) race(s, l.addr, n, wr); return l; }
  // the path condition only implies this address for the current model: a violation here uses that model
  checkRange(s, A, n, wr, what);
  Obj* o = find(s, A); uint64_t base = A & ~0xffffffffull;
  E off = mkBin(Op::Sub, ad, mkC(64, base));
  uint64_t lim = o->size - n;
  if (off->umax > lim || off->umin > lim) decide(s, mkCmp(Op::Ule, off, mkC(64, lim)));
  uint64_t lo = std::max<uint64_t>(off->umin, 0), hi = std::min<uint64_t>(off->umax, lim);
  E var = off; uint64_t rs = 0; if (off->op == Op::Add && isC(off->k[1])) { var = off->k[0]; rs = off->k[1]->lo; }
  unsigned z = lowZeros(var); uint64_t st = z >= 20 ? (1u << 20) : (1u << z); rs &= st - 1; if (hi < rs) { lo = hi = A - base; } else { lo = lo <= rs ? rs : (lo - rs + st - 1) / st * st + rs; hi = (hi - rs) / st * st + rs; }
  if (s.multi && lo == hi) race(s, base + lo, n, wr);
  if ((hi - lo) / st > 2048) { uint64_t v = A; decide(s, mkCmp(Op::Eq, ad, mkC(64, v))); l.addr = v; return l; }
  l.addr = base; l.off = off; l.lo = lo; l.hi = hi; l.step = st; return l;
}

Val Executor::load(State& s, const Loc& l, uint64_t delta, unsigned w) {
  Obj* o = find(s, l.addr);
  if (!l.off) return readLeaf(o, (l.addr & 0xffffffffu) + delta, w);
  if (w <= 64 && (l.hi - l.lo) / l.step >= 7) {      // a table of constants that a formula describes: v0 + i / m or v0 + i % m of the index
    std::vector<uint64_t> v; uint64_t n = (l.hi - l.lo) / l.step + 1, rs = l.lo & (l.step - 1), j0 = (l.lo - rs) / l.step; bool all = true;
    for (uint64_t i = 0; i < n && all; i++) { Val x = readLeaf(o, l.lo + i * l.step + delta, w); if (x.e) all = false; else v.push_back(x.c); }
    if (all) {
      unsigned sh = __builtin_ctzll(l.step); E j = mkBin(Op::LShr, mkBin(Op::Sub, l.off, mkC(64, rs)), mkC(64, sh));
      for (uint64_t m : {1, 10, 100}) for (int rem = 0; rem < (m == 1 ? 1 : 2); rem++) {
        auto f = [&](uint64_t q) { return rem ? q % m : q / m; }; uint64_t c = v[0] - f(j0); bool ok = true;
        for (uint64_t i = 0; i < n && ok; i++) ok = ((c + f(j0 + i)) & maskw(w)) == (v[i] & maskw(w));
        if (ok) { E t = m == 1 ? j : mkBin(rem ? Op::URem : Op::UDiv, j, mkC(64, m)); E r = mkBin(Op::Add, t, mkC(64, c)); return fromE(w == 64 ? r : mkExtract(r, 0, w)); }
      }
    }
  }
  // runs of equal values, from the highest offset down
  E r = nullptr; E last = nullptr;
  for (uint64_t p = l.hi;; p -= l.step) {
    Val v = readLeaf(o, p + delta, w); E e = toE(v, w);
    if (!r) { r = e; }
    else if (e != last) r = mkIte(mkCmp(Op::Ule, l.off, mkC(64, p)), e, r);
    last = e;
    if (p < l.lo + l.step) break;
  }
  return w <= 64 ? fromE(r) : Val{0, r};
}

void Executor::store(State& s, const Loc& l, uint64_t delta, unsigned w, const Val& v) {
  Obj* o = wobj(s, l.addr);
  if (!l.off) { writeLeaf(o, (l.addr & 0xffffffffu) + delta, w, v); return; }
  unsigned n = (w + 7) / 8; E e = toE(v, w); if (w != n * 8) e = mkZExt(e, n * 8);
  std::map<uint64_t, E> nb;
  for (uint64_t p = l.lo; p <= l.hi; p += l.step)
    for (unsigned i = 0; i < n; i++) { uint64_t q = p + delta + i; auto it = nb.find(q); E old = it == nb.end() ? byteAt(o, q) : it->second; nb[q] = mkIte(mkCmp(Op::Eq, l.off, mkC(64, p)), mkExtract(e, i * 8, 8), old); }
  for (auto& x : nb) setByte(o, x.first, x.second);
}

std::string Executor::cstr(State& s, uint64_t a) {
  std::string r;
  for (;;) { Obj* o = find(s, a); uint32_t off = (uint32_t)a; if (!o || off >= o->size || r.size() > 4096) break; char c = (!o->s.empty() && o->s[off]) ? (char)(uint64_t)s.model->ev.eval(o->s[off]) : (char)o->b[off]; if (!c) break; r += c; a++; }
  return r;
}

void Executor::race(State& s, uint64_t addr, uint64_t n, bool wr) {
  Thread& t = s.th[s.cur]; if (!n || t.ghost || !s.cfg[C_RACE]) return;
  Obj* o = find(s, addr); if (!o || o->ro || o->norace) return;
  uint64_t off = addr & 0xffffffffu; int me = s.cur; uint32_t myc = t.vc[me], ep = ((uint32_t)me << 24) | myc; bool need = false;
  if (!o->sh) need = true;
  else for (uint64_t i = off; i < off + n; i++) {
    uint32_t w = o->sh->w[i]; int wt = w >> 24; uint32_t wc = w & 0xffffff;
    if (w && wt != me && wc > t.vc[wt]) violation(s, "race", std::string("data race: ") + (wr ? "write" : "read") + " after unordered write by another thread");
    if (wr) { for (int u = 0; u < (int)s.th.size(); u++) if (u != me && o->sh->r[i * MAXT + u] > t.vc[u]) violation(s, "race", "data race: write after unordered read by another thread"); if (w != ep) need = true; }
    else if (w != ep && o->sh->r[i * MAXT + me] != myc) need = true;
  }
  if (!need) return;
  o = wobj(s, addr);
  if (!o->sh) { o->sh.reset(new Shadow); o->sh->w.assign(o->size, 0); o->sh->r.assign((size_t)o->size * MAXT, 0); s.shObjs.push_back(addr >> 32); }
  for (uint64_t i = off; i < off + n; i++) { if (wr) { o->sh->w[i] = ep; for (int u = 0; u < MAXT; u++) o->sh->r[i * MAXT + u] = 0; } else o->sh->r[i * MAXT + me] = myc; }
}

void Executor::acq(State& s, const VC& v) { auto& t = s.th[s.cur]; for (int i = 0; i < MAXT; i++) t.vc[i] = std::max(t.vc[i], v.c[i]); }
void Executor::rel(State& s, VC& v, bool join) { auto& t = s.th[s.cur]; for (int i = 0; i < MAXT; i++) v.c[i] = join ? std::max(v.c[i], t.vc[i]) : t.vc[i]; t.vc[s.cur]++; }

// Canonical hash of everything the future depends on.
uint64_t Executor::stateHash(State& s) {
  uint64_t h = 1;
  for (int r = 0; r < 64; r++) {
    Region& R = s.reg[r]; h = mix(h, R.n);
    for (auto& c : R.d) {
      if (!c->hv) {
        uint64_t ch = 7;
        for (int i = 0; i < 128; i++) {
          Obj* o = c->o[i].p; if (!o) { ch = mix(ch, 3); continue; }
          if (!o->hv) { uint64_t x = mix(11, o->size * 4 + o->kind); size_t i8 = 0; for (; i8 + 8 <= o->b.size(); i8 += 8) { uint64_t q; memcpy(&q, &o->b[i8], 8); x = mix(x, q); } for (; i8 < o->b.size(); i8++) x = mix(x, o->b[i8]); for (size_t k = 0; k < o->s.size(); k++) if (o->s[k]) x = mix(mix(x, k), o->s[k]->id); o->h = x; o->hv = true; }
          ch = mix(ch, o->h);
        }
        c->h = ch; c->hv = true;
      }
      h = mix(h, c->h);
    }
  }
  uint64_t pcs = 0; for (E e : s.pc) pcs += mix(5, e->id); h = mix(h, pcs);
  auto hv = [&](const Val& v) { h = mix(h, v.e ? (0x8000000000000000ull | v.e->id) : v.c); };
  hv(s.now); h = mix(h, s.th.size()); if (s.cfg[C_PREEMPT]) h = mix(h, s.cur);
  for (auto& t : s.th) {
    h = mix(h, ((uint64_t)t.ts << 8) | t.pend | (t.joined << 16) | (t.hasDl << 17) | ((uint64_t)t.wres << 20) | ((uint64_t)t.ghost << 32)); h = mix(h, t.paddr); h = mix(h, t.waddr); h = mix(h, t.wmutex); if (t.hasDl) hv(t.dl);
    for (auto& x : t.tls) h = mix(mix(h, x.first), x.second);
    for (auto& f : t.st) { h = mix(h, (uint64_t)f->f->id << 32 | f->bb); h = mix(h, f->ip); for (int r : live(f->f, f->bb, f->ip)) hv(f->regs[r]); for (auto a : f->allocas) h = mix(h, a); h = mix(h, f->va); }
  }
  for (auto& m : s.mx) if (m.second.owner >= 0) { h = mix(mix(h, m.first), m.second.owner * 16 + m.second.depth); }
  for (auto& c : s.cfg) h = mix(mix(h, c.first), c.second);
  for (auto& c : s.nameCnt) h = mix(mix(h, std::hash<std::string>()(c.first)), c.second);
  h = mix(h, s.preempt * 1000003ull + s.timeouts * 1009ull + s.spur);
  if (s.multi && s.cfg[C_RACE]) {
    // race information, modulo renumbering of clocks
    std::vector<uint32_t> vals[MAXT]; std::vector<std::pair<uint64_t, const uint32_t*>> vcs;
    for (auto& t : s.th) vcs.push_back({(uint64_t)t.id, t.vc});
    for (auto& m : s.mx) vcs.push_back({m.first, m.second.vc.c});
    for (auto& m : s.avc) vcs.push_back({m.first + 1, m.second.c});
    for (auto& v : vcs) for (int i = 0; i < MAXT; i++) vals[i].push_back(v.second[i]);
    uint32_t minLive[MAXT];
    for (int i = 0; i < MAXT; i++) { std::sort(vals[i].begin(), vals[i].end()); vals[i].erase(std::unique(vals[i].begin(), vals[i].end()), vals[i].end()); minLive[i] = ~0u; for (auto& t : s.th) if (t.id != i && t.ts != TS::Done) minLive[i] = std::min(minLive[i], t.vc[i]); }
    auto rank = [&](int i, uint32_t c) { return (uint64_t)(std::lower_bound(vals[i].begin(), vals[i].end(), c) - vals[i].begin()); };
    for (auto& v : vcs) { h = mix(h, v.first); for (int i = 0; i < (int)s.th.size(); i++) h = mix(h, rank(i, v.second[i])); }
    std::sort(s.shObjs.begin(), s.shObjs.end()); std::vector<uint32_t> keep;
    for (uint32_t id : s.shObjs) {
      uint64_t ad = (uint64_t)id << 32; Obj* o = find(s, ad); if (!o || !o->sh) continue;
      bool any = false; uint64_t x = mix(23, id); Shadow& S = *o->sh;
      for (uint32_t i = 0; i < o->size; i++) {
        uint32_t w = S.w[i]; if (w) { int wt = w >> 24; uint32_t wc = w & 0xffffff; if (wc > minLive[wt]) { any = true; x = mix(mix(x, i), (uint64_t)(wt + 1) << 40 | rank(wt, wc)); } }
        for (int u = 0; u < (int)s.th.size(); u++) { uint32_t c = S.r[(size_t)i * MAXT + u]; if (c && c > minLive[u]) { any = true; x = mix(mix(x, i + (1u << 30)), (uint64_t)(u + 1) << 40 | rank(u, c)); } }
      }
      if (any) { h = mix(h, x); keep.push_back(id); } else { wobj(s, ad)->sh.reset(); }
    }
    s.shObjs = keep;
  }
  return h;
}
}
