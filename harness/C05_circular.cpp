/*SPEC
{
 "property": "C05",
 "src": [],
 "quick": {"time": 300},
 "bounds": {"quick": "every reference graph over 4 elements (all 2^16 adjacency matrices, self references included), any start element, children listed in either order"},
 "outside": "larger graphs",
 "witness": ["circular", "tree", "diamond"]
}
SPEC*/
#include <openscenario_interpreter/utility/circular_check.hpp>
#include <vector>

#include "sx.hpp"

void sx_harness()
{
  constexpr int n = 4;
  bool edge[n][n], path[n][n];
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) path[i][j] = edge[i][j] = sx::boolean(sx::nm("edge", i * n + j));
  const int start = 0;
  const bool reversed = sx::pick("reversed", 0, 1);
  const bool circular = openscenario_interpreter::utility::circular_check(start, [&](int i) {
    std::vector<int> children;
    for (int k = 0; k < n; ++k) {
      const int j = reversed ? n - 1 - k : k;
      if (edge[i][j]) children.push_back(j);
    }
    return children;
  });
  // reference: transitive closure without self references
  for (int i = 0; i < n; ++i) path[i][i] = false;
  bool cyc[n][n];
  memcpy(cyc, path, sizeof path);
  for (int k = 0; k < n; ++k)
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) cyc[i][j] = cyc[i][j] | (cyc[i][k] & cyc[k][j]);
  bool expected = cyc[start][start];
  for (int i = 0; i < n; ++i) expected = expected | (cyc[start][i] & cyc[i][i]);
  sx_assert(circular == expected, "circular");
  if (circular) sx_reach("circular"); else sx_reach("tree");
  sx_reach_if((not circular) & path[0][1] & path[0][2] & path[1][3] & path[2][3], "diamond");
}
