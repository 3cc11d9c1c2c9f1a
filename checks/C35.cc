#include "gen.h"
#include <map>
#include <tensor/flags.h>
using namespace tensor;
const char *pbt::PROPERTY = "C35";
const char *pbt::RULE =
    "Random histories of up to 60 creations, changes and queries over several registries of flags (the global one, copies), with all floating point values and keys that do not exist, compared with a model. "
    "Non-trivial: at least two keys and a change.";
const std::vector<std::string> pbt::ASSUMPTIONS = {"keys are those given by create_key of the same registry or a copy of it"};
TEST(histories, 900000, 5400000) {
  std::vector<Flags> f(1);
  std::vector<std::map<unsigned, double> > m(1);
  bool changed = false;
  size_t keys = 0;
  for (long n = S.range(1, 60), k = 0; k < n; ++k) {
    size_t w = S.draw(f.size());
    double x = gen_num(S, V_SPECIAL);
    int o = (int)S.weighted({3, 4, 4, 1, 1});
    NOTE("step " << o << " registry " << w << " value " << x);
    auto pick = [&] { auto i = m[w].begin(); std::advance(i, S.draw(m[w].size())); return i->first; };
    if (o == 0 || m[w].empty()) {
      unsigned c = f[w].create_key(x);
      CHECK(!m[w].count(c), "create_key gave key " << c << " twice");
      m[w][c] = x;
      keys = std::max(keys, m[w].size());
    } else if (o == 1) {
      unsigned c = pick();
      Flags &r = f[w].set(c, x);
      CHECK(&r == &f[w], "set() returns another registry");
      m[w][c] = x;
      changed = true;
    } else if (o == 2) {
      unsigned c = pick();
      CHECK(same_bits(f[w].get(c), m[w][c]), "flag " << c << " is " << f[w].get(c) << " instead of " << m[w][c]);
    } else if (o == 3) {
      if (f.size() < 4) { Flags g(f[w]); f.push_back(g); m.push_back(std::map<unsigned, double>(m[w])); label("copied"); }
      else { size_t v = S.draw(f.size()); f[v] = f[w]; m[v] = std::map<unsigned, double>(m[w]); label("assigned"); }
    } else if (S.coin(1, 100)) {
      unsigned top = m[w].rbegin()->first, c = S.elem(std::vector<unsigned>{top + 1, top + 2, 1000000u, 2147483648u, 4294967295u});
      bool get = S.coin();
      label("unknown key");
      must_refuse("an unknown key", [&] { if (get) { volatile double y = f[w].get(c); (void)y; } else f[w].set(c, x); });
    }
    for (size_t r = 0; r < f.size(); ++r)
      for (auto &i : m[r]) if (!same_bits(f[r].get(i.first), i.second)) FAIL("flag " << i.first << " of registry " << r << " is " << f[r].get(i.first) << " instead of " << i.second);
  }
  if (keys > 1 && changed) nontrivial();
}
TEST(global, 45000, 270000) {
  double x = gen_num(S, V_SPECIAL), y = gen_num(S, V_SPECIAL), old = FLAGS.get(TENSOR_DEBUG_BLOCK_SVD);
  NOTE("global flags " << x << " " << y);
  nontrivial();
  unsigned c = FLAGS.create_key(x);
  CHECK(c != TENSOR_DEBUG_BLOCK_SVD, "the new key is one in use");
  CHECK(same_bits(FLAGS.get(c), x), "a new flag is " << FLAGS.get(c));
  FLAGS.set(c, y);
  CHECK(same_bits(FLAGS.get(c), y) && same_bits(FLAGS.get(TENSOR_DEBUG_BLOCK_SVD), old), "wrong flags");
  FLAGS.set(TENSOR_DEBUG_BLOCK_SVD, x).set(c, x);
  CHECK(same_bits(FLAGS.get(TENSOR_DEBUG_BLOCK_SVD), x) && same_bits(FLAGS.get(c), x), "wrong flags");
  FLAGS.set(TENSOR_DEBUG_BLOCK_SVD, old);
}
