// P11: first-order deformation search against reachability on the pair grid.
#include "trap.hpp"

#include <arc_utilities/first_order_deformation.h>
using namespace arc_utilities::FirstOrderDeformation;

static void check(mc::Run& r, int rows, int cols, const std::vector<bool>& ok) {
  auto valid = [&](const ssize_t a, const ssize_t b) -> bool {
    if (a < 0 || b < 0 || a >= rows || b >= cols) r.fail(mc::cat("validity asked for ", a, ",", b));
    return ok[(size_t)(a * cols + b)];
  };
  // pairs reachable from the first one through valid neighbours
  std::vector<bool> seen((size_t)(rows * cols), false);
  std::vector<int> todo(1, 0);
  seen[0] = true;
  while (!todo.empty()) {
    const int c = todo.back();
    todo.pop_back();
    for (int dr = -1; dr <= 1; dr++)
      for (int dc = -1; dc <= 1; dc++) {
        const int a = c / cols + dr, b = c % cols + dc;
        if (a < 0 || b < 0 || a >= rows || b >= cols || seen[(size_t)(a * cols + b)] || !ok[(size_t)(a * cols + b)]) continue;
        seen[(size_t)(a * cols + b)] = true;
        todo.push_back(a * cols + b);
      }
  }
  r.step();
  const auto path = GetFirstOrderDeformation(rows, cols, valid);
  std::string p;
  for (auto& c : path) p += mc::cat(" ", c.first, ",", c.second);
  std::string mask;
  for (bool b : ok) mask += b ? '1' : '0';
  const std::string at = mc::cat(rows, "x", cols, " valid ", mask, " path", p);
  MC_CHECK(!path.empty() == (bool)seen.back(), mc::cat(at, seen.back() ? ": an alignment exists" : ": no alignment exists"));
  r.state(mc::cat(rows, cols, p));
  if (path.empty()) return;
  MC_CHECK(path.front() == ConfigType(0, 0) && path.back() == ConfigType(rows - 1, cols - 1), mc::cat(at, ": ends"));
  std::set<ConfigType> used;
  for (size_t i = 0; i < path.size(); i++) {
    MC_CHECK(used.insert(path[i]).second, mc::cat(at, ": repeats a pair"));
    MC_CHECK(path[i].first >= 0 && path[i].second >= 0 && path[i].first < rows && path[i].second < cols, mc::cat(at, ": outside the grid"));
    if (!i) continue;
    MC_CHECK(ok[(size_t)(path[i].first * cols + path[i].second)], mc::cat(at, ": uses a forbidden pair"));
    MC_CHECK(std::labs(path[i].first - path[i - 1].first) <= 1 && std::labs(path[i].second - path[i - 1].second) <= 1, mc::cat(at, ": jumps"));
  }
}

MC_SCENARIO(all_masks, "every validity mask of every shape up to 3x5/4x4 (thorough: 4x5)", 3) {
  const int rows = 1 + r.choose(r.bound(4, 4), "rows");
  const int cols = 1 + r.choose(rows == 4 ? r.bound(4, 5) : 5, "columns");
  std::vector<bool> ok;
  for (int i = 0; i < rows * cols; i++) ok.push_back(r.flip("valid"));
  check(r, rows, cols, ok);
}
MC_SCENARIO(corridors, "long grids with one wall per second column, every combination of gap positions, so the search must turn back", 2) {
  const int rows = 4 + r.choose(2, "rows"), cols = 7 + 2 * r.choose(2, "columns");
  const bool turn = r.flip("transpose");
  std::vector<bool> ok((size_t)(rows * cols), true);
  for (int c = 1; c < cols; c += 2) {
    const int gap = r.choose(rows + 1, "gap");
    for (int a = 0; a < rows; a++)
      if (a != gap) ok[(size_t)(a * cols + c)] = false;
  }
  if (turn) {
    std::vector<bool> t((size_t)(rows * cols));
    for (int a = 0; a < rows; a++)
      for (int c = 0; c < cols; c++) t[(size_t)(c * rows + a)] = ok[(size_t)(a * cols + c)];
    check(r, cols, rows, t);
  } else {
    check(r, rows, cols, ok);
  }
}
MC_SCENARIO(snakes, "single-width snaking corridors with every single blocked or opened pair", 2) {
  const int rows = 5, cols = 7;
  std::vector<bool> ok((size_t)(rows * cols), false);
  for (int a = 0; a < rows; a++)
    for (int c = 0; c < cols; c++) ok[(size_t)(a * cols + c)] = a % 2 == 0 || (a % 4 == 1 ? c == cols - 1 : c == 0);
  const int flip = r.choose(rows * cols + 1, "changed pair"), flip2 = r.choose(rows * cols + 1, "second changed pair");
  if (flip < rows * cols) ok[(size_t)flip] = !ok[(size_t)flip];
  if (flip2 < rows * cols) ok[(size_t)flip2] = !ok[(size_t)flip2];
  check(r, rows, cols, ok);
}
MC_SCENARIO(winding_paths, "every chordless king-move path from the first to the last pair of grids from 6x6 to 7x7 (thorough also 7x8 and 8x7) as the only valid pairs: the search must follow it, whatever directions it needs", 4) {
  static const std::vector<std::pair<int, int>> shapes{{6, 6}, {6, 7}, {7, 6}, {7, 7}, {7, 8}, {8, 7}};
  const auto sh = shapes[(size_t)r.choose(r.bound(4, 6), "shape")];
  const int rows = sh.first, cols = sh.second;
  std::vector<bool> ok((size_t)(rows * cols), false);
  std::vector<int> touch((size_t)(rows * cols), 0);  // number of path pairs next to each pair
  auto at = [&](int a, int b) { return (size_t)(a * cols + b); };
  auto add = [&](int a, int b) {
    ok[at(a, b)] = true;
    for (int i = -1; i <= 1; i++)
      for (int j = -1; j <= 1; j++)
        if (a + i >= 0 && b + j >= 0 && a + i < rows && b + j < cols) touch[at(a + i, b + j)]++;
  };
  int a = 0, b = 0;
  add(0, 0);
  while (a != rows - 1 || b != cols - 1) {
    std::vector<std::pair<int, int>> next;
    for (int i = -1; i <= 1; i++)
      for (int j = -1; j <= 1; j++)
        if (a + i >= 0 && b + j >= 0 && a + i < rows && b + j < cols && !ok[at(a + i, b + j)] && touch[at(a + i, b + j)] == 1) next.push_back({a + i, b + j});
    if (next.empty()) throw mc::Prune();
    const auto n = r.pick(next, "next pair");
    a = n.first, b = n.second;
    add(a, b);
  }
  check(r, rows, cols, ok);
}
