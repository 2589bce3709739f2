// C25: generated UUIDs, over all outputs of the random source.
//! include=random_stub.hpp
#include "vf.h"
#include <teiacare/sdk/uuid.hpp>
#include <teiacare/sdk/uuid_generator.hpp>
#include <cstring>
using tc::sdk::uuid;
using tc::sdk::uuid_generator;
namespace {
constexpr int MAXW = 32;
uint32_t words[MAXW]; int used; int limit;
struct bits { uint8_t b[16]; };
static_assert(sizeof(uuid) == 16);
bits create() { used = 0; const uuid u = uuid_generator::instance().create(); bits v; std::memcpy(v.b, static_cast<const void*>(&u), 16); return v; }
int get(const bits& v, int i) { return v.b[i / 8] >> (i % 8) & 1; }
bool fixed_bit(int i) { return (i / 8 == 6 && i % 8 >= 4) || (i / 8 == 8 && i % 8 >= 6); }   // version nibble, variant
}
extern "C" uint32_t vf_next_random() { const int k = used++; if (k >= MAXW) __tc_unsupported("more than 32 random words in one generation"); return words[k]; }

//@ C25 H_uuid_generated | all outputs of the random engine feeding two successive generations; unit-vector runs find which random bit feeds each of the 122 bits, the claim is then decided for all values
ENTRY(H_uuid_generated) {
  (void)create();                                  // warm-up: lazy seeding happens here
  for (auto& w : words) w = 0;
  const bits base = create(); const int n = used;
  CHECK(n >= 4, "a generation draws at least 122 fresh random bits");
  // which random bit drives which output bit
  int from[128]; for (int& f : from) f = -1;
  for (int j = 0; j < 32 * n; ++j) {
    words[j / 32] = 1u << (j % 32);
    const bits v = create();
    words[j / 32] = 0;
    for (int i = 0; i < 128; ++i) if (get(v, i) != get(base, i)) { CHECK(!fixed_bit(i), "version and variant bits do not depend on random input"); if (from[i] < 0) from[i] = j; }
  }
  for (int i = 0; i < 128; ++i) {
    CHECK(fixed_bit(i) || from[i] >= 0, "every other bit is driven by a random bit");
    for (int k = 0; k < i; ++k) CHECK(from[i] < 0 || from[i] != from[k], "no two bits share a random bit");
  }
  // all values, two generations in a row
  for (int round = 0; round < 2; ++round) {
    vf::fill(words, sizeof words, round ? "second" : "first");
    const bits v = create();
    CHECK(used == n, "every generation draws fresh random words");
    CHECK((v.b[6] & 0xF0) == 0x40, "version 4");
    CHECK((v.b[8] & 0xC0) == 0x80, "variant 10");
    bool ok = true;
    for (int i = 0; i < 128; ++i) if (!fixed_bit(i)) ok &= get(v, i) == ((int)(words[from[i] / 32] >> (from[i] % 32) & 1) ^ get(base, i));
    CHECK(ok, "each of the 122 bits equals its own random bit");
  }
  COVER("done");
}
