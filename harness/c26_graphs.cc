// C26 (part one): graphs, independent sets, forests, clusterings, visibility and
// the group container, for every small input and history.
#include <algorithm>
#include <map>
#include <set>

#include "absl/container/btree_set.h"
#include "ceres/block_structure.h"
#include "ceres/canonical_views_clustering.h"
#include "ceres/graph.h"
#include "ceres/graph_algorithms.h"
#include "ceres/ordered_groups.h"
#include "ceres/single_linkage_clustering.h"
#include "ceres/visibility.h"
#include "mc.h"
#include "util.h"

namespace {
namespace ci = ceres::internal;
using std::vector;

// ---- the container ----------------------------------------------------------
MC_SCENARIO(Groups, .split = 3, .weight = 2) {
  ceres::OrderedGroups<int> g;
  std::map<int, int> m;  // element -> group
  const int depth = mc::Bound(7, 9);
  for (int step = 0; step < depth; ++step) {
    const int op = mc::Choose(6, "operation");
    const int before = static_cast<int>(m.size());
    std::string at;
    if (op == 0 || op == 1) {
      const int e = mc::Choose(3, "element"), group = op == 0 ? mc::Pick({0, 1, 4}, "group") : mc::Pick({-1, 2147483647}, "group");
      if (op == 1 && group > 0 && step + 1 < depth) { /* the largest group id cannot be reversed past */ return; }
      const bool ok = g.AddElementToGroup(e, group);
      MC_EXPECT(ok == (group >= 0)) << "adding " << e << " to group " << group << " returns " << ok;
      if (group >= 0) m[e] = group;
      at = "add";
    } else if (op == 2) {
      const int e = mc::Choose(4, "element");
      const bool ok = g.Remove(e);
      MC_EXPECT(ok == (m.erase(e) == 1)) << "removing " << e << " returns " << ok;
      at = "remove";
    } else if (op == 3) {
      const vector<int> list = mc::Pick(vector<vector<int>>{{}, {0, 1}, {2, 3, 0}, {1, 1}}, "elements");
      const int n = g.Remove(list);
      int want = 0;
      for (int e : list) want += m.erase(e);
      MC_EXPECT(n == want) << "removing several returns " << n << " instead of " << want;
      at = "remove several";
    } else if (op == 4) {
      g.Clear();
      m.clear();
      at = "clear";
    } else {
      g.Reverse();
      // The order of the groups is reversed; their numbers are up to the container.
      std::map<int, std::set<int>> old;
      for (auto& p : m) old[p.second].insert(p.first);
      MC_EXPECT(g.group_to_elements().size() == old.size()) << "reversing changes the number of groups";
      auto it = g.group_to_elements().begin();
      for (auto o = old.rbegin(); o != old.rend() && it != g.group_to_elements().end(); ++o, ++it) {
        MC_EXPECT(it->second == o->second && it->first >= 0) << "reversing gives other groups";
        for (int e : o->second) m[e] = it->first;
      }
      at = "reverse";
    }
    mc::Step();
    std::map<int, std::set<int>> groups;
    for (auto& p : m) groups[p.second].insert(p.first);
    MC_EXPECT(g.group_to_elements() == groups) << "groups after " << at << " (" << before << " elements before)";
    MC_EXPECT((std::map<int, int>(g.element_to_group().begin(), g.element_to_group().end()) == m)) << "elements after " << at;
    MC_EXPECT(g.NumElements() == static_cast<int>(m.size()) && g.NumGroups() == static_cast<int>(groups.size())) << "counts after " << at;
    for (int e = 0; e < 4; ++e) {
      MC_EXPECT(g.IsMember(e) == (m.count(e) == 1)) << "membership of " << e << " after " << at;
      MC_EXPECT(g.GroupId(e) == (m.count(e) ? m[e] : -1)) << "group of " << e << " after " << at;
    }
    for (int k = -1; k < 12; ++k) MC_EXPECT(g.GroupSize(k) == (groups.count(k) ? static_cast<int>(groups[k].size()) : 0)) << "size of group " << k << " after " << at;
    if (!groups.empty()) MC_EXPECT(g.MinNonZeroGroup() == groups.begin()->first) << "first group after " << at;
    mc::H h;
    for (auto& p : m) h(p.first)(p.second);
    mc::State(h.h);
    mc::Outcome(h.h);
    if (mc::Seen(h.h, depth - step - 1)) return;
  }
}

// ---- graph containers ---------------------------------------------------------
MC_SCENARIO(GraphHistories, .split = 3, .weight = 2) {
  ci::Graph<int> g;
  ci::WeightedGraph<int> w;
  std::map<int, double> vertices;
  std::map<std::pair<int, int>, double> edges;
  const int depth = mc::Bound(8, 10), nv = 3;
  for (int step = 0; step < depth; ++step) {
    const int op = mc::Choose(4, "operation");
    if (op == 0) {
      const int v = mc::Choose(nv, "vertex");
      const double weight = mc::Pick({1.0, 2.5}, "weight");
      g.AddVertex(v);
      if (weight == 1) w.AddVertex(v); else w.AddVertex(v, weight);
      vertices[v] = weight;
    } else if (op == 1) {
      const int v = mc::Choose(nv, "vertex");
      const bool had = vertices.erase(v) == 1;
      MC_EXPECT(g.RemoveVertex(v) == had) << "removing vertex " << v;
      MC_EXPECT(w.RemoveVertex(v) == had) << "removing weighted vertex " << v;
      for (auto it = edges.begin(); it != edges.end();)
        if (it->first.first == v || it->first.second == v) it = edges.erase(it);
        else ++it;
    } else {
      const int a = mc::Choose(nv, "from"), b = mc::Choose(nv, "to");
      if (!vertices.count(a) || !vertices.count(b) || a == b) return;
      const double weight = op == 2 ? 1.0 : mc::Pick({0.5, -2.0}, "weight");
      g.AddEdge(a, b);
      if (op == 2) w.AddEdge(a, b); else w.AddEdge(a, b, weight);
      edges[{std::min(a, b), std::max(a, b)}] = weight;
    }
    mc::Step();
    mc::H h;
    std::set<int> want, got(g.vertices().begin(), g.vertices().end()), wgot(w.vertices().begin(), w.vertices().end());
    for (auto& p : vertices) want.insert(p.first), h(p.first)(p.second);
    MC_EXPECT(got == want && wgot == want && g.vertices().size() == want.size()) << "vertices";
    for (int v : want) {
      std::set<int> n;
      for (auto& e : edges) {
        if (e.first.first == v) n.insert(e.first.second);
        if (e.first.second == v) n.insert(e.first.first);
      }
      MC_EXPECT((std::set<int>(g.Neighbors(v).begin(), g.Neighbors(v).end()) == n)) << "neighbours of " << v;
      MC_EXPECT((std::set<int>(w.Neighbors(v).begin(), w.Neighbors(v).end()) == n)) << "weighted neighbours of " << v;
      MC_EXPECT(w.VertexWeight(v) == vertices[v]) << "weight of vertex " << v;
      for (int u : want) {
        auto it = edges.find({std::min(u, v), std::max(u, v)});
        MC_EXPECT(w.EdgeWeight(u, v) == (it == edges.end() ? 0.0 : it->second)) << "weight of edge " << u << " " << v;
      }
    }
    for (auto& e : edges) h(e.first.first)(e.first.second)(e.second);
    mc::State(h.h);
    mc::Outcome(h.h);
    if (mc::Seen(h.h, depth - step - 1)) return;
  }
}

// ---- independent sets ---------------------------------------------------------
void CheckOrdering(const vector<vector<bool>>& adj, const vector<int>& ordering, int k, const vector<int>* initial, const char* at) {
  const int n = adj.size();
  auto degree = [&](int v) { int d = 0; for (int u = 0; u < n; ++u) d += adj[v][u]; return d; };
  vector<int> sorted = ordering;
  std::sort(sorted.begin(), sorted.end());
  vector<int> all(n);
  for (int i = 0; i < n; ++i) all[i] = i;
  MC_REQUIRE(sorted == all) << at << ": not every vertex exactly once: " << vu::Str(ordering, ordering.size());
  MC_REQUIRE(k >= (n > 0) && k <= n) << at << ": " << k << " of " << n << " vertices are called independent";
  for (int i = 0; i < k; ++i)
    for (int j = 0; j < i; ++j) MC_EXPECT(!adj[ordering[i]][ordering[j]]) << at << ": " << ordering[i] << " and " << ordering[j] << " are adjacent";
  for (int i = k; i < n; ++i) {
    bool any = false;
    for (int j = 0; j < k; ++j) any = any || adj[ordering[i]][ordering[j]];
    MC_EXPECT(any) << at << ": the independent set is not maximal: " << ordering[i] << " could be added";
  }
  // Increasing degree within both parts, and among equals as given (or by number).
  auto place = [&](int v) { return initial ? static_cast<int>(std::find(initial->begin(), initial->end(), v) - initial->begin()) : v; };
  for (int i = 1; i < n; ++i) {
    if (i == k) continue;
    const int a = ordering[i - 1], b = ordering[i];
    MC_EXPECT(degree(a) < degree(b) || (degree(a) == degree(b) && place(a) < place(b))) << at << ": " << a << " precedes " << b;
  }
  // Greedy by that order.
  for (int i = k; i < n; ++i) {
    const int v = ordering[i];
    bool earlier = false;
    for (int j = 0; j < k; ++j) {
      const int u = ordering[j];
      if (adj[v][u] && (degree(u) < degree(v) || (degree(u) == degree(v) && place(u) < place(v)))) earlier = true;
    }
    MC_EXPECT(earlier) << at << ": " << v << " was passed over";
  }
}
vector<vector<bool>> AnyGraph(int n) {
  vector<vector<bool>> adj(n, vector<bool>(n));
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) adj[i][j] = adj[j][i] = mc::Flip("edge");
  return adj;
}
MC_SCENARIO(IndependentSets, .split = 5, .weight = 2) {
  const int n = mc::Range(0, 6, "vertices");
  const auto adj = AnyGraph(n);
  if (mc::Skipping()) return;
  ci::Graph<int> g;
  for (int i = 0; i < n; ++i) g.AddVertex(i);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (adj[i][j]) g.AddEdge(i, j);
  vector<int> ordering = {99, 98};
  const int k = ci::IndependentSetOrdering(g, &ordering);
  CheckOrdering(adj, ordering, k, nullptr, "independent set ordering");
  vector<int> perm(n);
  for (int i = 0; i < n; ++i) perm[i] = i;
  mc::H h;
  h(k)(ordering);
  do {
    vector<int> o = perm;
    const int ks = ci::StableIndependentSetOrdering(g, &o);
    CheckOrdering(adj, o, ks, &perm, "stable independent set ordering");
    h(ks)(o);
    mc::Step();
  } while (std::next_permutation(perm.begin(), perm.end()) && !mc::Failed());
  mc::Outcome(h.h);
  mc::State(h.h);
}

// ---- forests and clusters -------------------------------------------------------
struct W {
  int n;
  vector<vector<double>> w;  // NaN: no edge
  ci::WeightedGraph<int> Graph(int stride) const {
    ci::WeightedGraph<int> g;
    for (int i = 0; i < n; ++i) g.AddVertex(i * stride, 1 + i);
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) if (w[i][j] == w[i][j]) g.AddEdge(j * stride, i * stride, w[i][j]);
    return g;
  }
};
W AnyWeighted(int n, const vector<double>& values, bool loops) {
  W r{n, vector<vector<double>>(n, vector<double>(n, vu::NaN()))};
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j) {
      const int k = mc::Choose(static_cast<int>(values.size()) + 1, "weight");
      if (k) r.w[i][j] = r.w[j][i] = values[k - 1];
    }
  for (int i = 0; i < n && loops; ++i) r.w[i][i] = 1;
  return r;
}
vector<int> Components(int n, const std::function<bool(int, int)>& joined) {
  vector<int> c(n);
  for (int i = 0; i < n; ++i) c[i] = i;
  for (int round = 0; round < n; ++round)
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && joined(i, j)) c[i] = c[j] = std::min(c[i], c[j]);
  return c;
}
MC_SCENARIO(Forests, .split = 6, .weight = 2) {
  const int n = mc::Range(0, 5, "vertices");
  const auto g = AnyWeighted(n, n < 5 ? vector<double>{0.5, 1, 2} : mc::Thorough() ? vector<double>{0, 1, -1} : vector<double>{0, 1}, mc::Flip("loops"));
  if (mc::Skipping()) return;
  const int stride = 3;
  const auto graph = g.Graph(stride);
  auto forest = ci::Degree2MaximumSpanningForest(graph);
  MC_REQUIRE(forest->vertices() == graph.vertices()) << "vertices";
  vector<vector<bool>> in(n, vector<bool>(n));
  int edges = 0;
  for (int i = 0; i < n; ++i) {
    MC_EXPECT(forest->VertexWeight(i * stride) == 1 + i) << "vertex weight";
    const auto& nb = forest->Neighbors(i * stride);
    MC_EXPECT(nb.size() <= 2) << "degree " << nb.size();
    for (int u : nb) {
      const int j = u / stride;
      in[i][j] = true;
      if (j < i) ++edges;
      MC_EXPECT(i != j && g.w[i][j] == g.w[i][j]) << "edge " << i << " " << j << " is not in the graph";
      MC_EXPECT(forest->EdgeWeight(i * stride, u) == g.w[i][j]) << "edge weight";
    }
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) MC_EXPECT(in[i][j] == in[j][i]) << "edge in one direction";
  const auto c = Components(n, [&](int i, int j) { return in[i][j]; });
  int trees = 0;
  for (int i = 0; i < n; ++i) trees += c[i] == i;
  MC_EXPECT(edges == n - trees) << "the forest has a cycle";
  // Greedy: an edge is left out only because of edges at least as heavy.
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j) {
      if (in[i][j] || g.w[i][j] != g.w[i][j]) continue;
      auto heavy = [&](int a, int b) { return in[a][b] && g.w[a][b] >= g.w[i][j]; };
      int di = 0, dj = 0;
      for (int u = 0; u < n; ++u) di += heavy(i, u), dj += heavy(j, u);
      const auto h = Components(n, heavy);
      MC_EXPECT(di >= 2 || dj >= 2 || h[i] == h[j]) << "edge " << i << " " << j << " of weight " << g.w[i][j] << " is left out";
    }
  mc::H h;
  h(n)(edges);
  for (auto& r : g.w) h(r);
  mc::State(h.h);
  mc::Outcome(mc::H()(edges)(c).h);
}
MC_SCENARIO(SingleLinkage, .split = 6, .weight = 2) {
  const int n = mc::Range(0, 5, "vertices");
  const auto g = AnyWeighted(n, n < 5 ? vector<double>{0.5, 0.9, 1} : vector<double>{0.5, 0.9}, mc::Flip("loops"));
  ci::SingleLinkageClusteringOptions o;
  const double threshold = mc::Pick({-1.0, 0.9, 0.95}, "similarity");
  if (threshold >= 0) o.min_similarity = threshold;
  if (mc::Skipping()) return;
  const int stride = 2;
  absl::flat_hash_map<int, int> membership;
  membership[77] = 1;
  const int num = ci::ComputeSingleLinkageClustering(o, g.Graph(stride), &membership);
  const auto c = Components(n, [&](int i, int j) { return g.w[i][j] >= o.min_similarity; });
  MC_REQUIRE(static_cast<int>(membership.size()) == n) << "membership of " << membership.size() << " vertices";
  std::set<int> clusters;
  for (int i = 0; i < n; ++i) {
    MC_REQUIRE(membership.count(i * stride)) << "vertex " << i << " has no cluster";
    const int m = membership[i * stride];
    clusters.insert(m);
    MC_REQUIRE(m % stride == 0 && m >= 0 && m / stride < n && c[m / stride] == c[i]) << "the cluster of " << i << " is named after " << m;
    for (int j = 0; j < n; ++j) MC_EXPECT((membership[j * stride] == m) == (c[i] == c[j])) << "vertices " << i << " and " << j;
  }
  MC_EXPECT(num == static_cast<int>(clusters.size())) << num << " clusters returned";
  mc::Outcome(mc::H()(c)(num).h);
  mc::H h;
  for (auto& r : g.w) h(r);
  mc::State(h.h);
}
MC_SCENARIO(CanonicalViews, .split = 6, .weight = 3) {
  const int n = mc::Range(0, 4, "views");
  const bool loops = mc::Flip("loops");
  auto g = AnyWeighted(n, n < 4 || mc::Thorough() ? vector<double>{0.25, 0.75, 1} : vector<double>{0.25, 0.75}, loops);
  ci::CanonicalViewsClusteringOptions o;
  if (mc::Flip("options")) {
    o.min_views = mc::Pick({0, 1, 5}, "fewest");
    o.size_penalty_weight = mc::Pick({0.0, 0.5, 1.5}, "size penalty");
    o.similarity_penalty_weight = mc::Pick({0.0, 1.0}, "similarity penalty");
    o.view_score_weight = mc::Pick({0.0, 1.0}, "score weight");
  }
  // Which views may be centers.
  const int valid = mc::Pick(n == 0 ? vector<int>{0} : n == 1 ? vector<int>{1, 0} : vector<int>{(1 << n) - 1, (1 << n) - 2, 1}, "valid views");
  if (mc::Skipping()) return;
  auto graph = g.Graph(1);
  for (int i = 0; i < n; ++i) if (!(valid >> i & 1)) graph.AddVertex(i, ci::WeightedGraph<int>::InvalidWeight());
  vector<int> centers = {5};
  absl::flat_hash_map<int, int> membership;
  membership[9] = 2;
  ci::ComputeCanonicalViewsClustering(o, graph, &centers, &membership);
  // The objective, from its definition.
  auto similarity = [&](int i, int j) { return g.w[i][j] == g.w[i][j] ? g.w[i][j] : 0.0; };
  auto quality = [&](const vector<int>& c) {
    double e = 0;
    for (int i = 0; i < n; ++i) {
      double best = 0;
      for (int j : c) best = std::max(best, similarity(i, j));
      e += best;
    }
    for (size_t a = 0; a < c.size(); ++a) {
      e += o.view_score_weight * (1 + c[a]) - o.size_penalty_weight;
      for (size_t b = 0; b < a; ++b) e -= o.similarity_penalty_weight * similarity(c[a], c[b]);
    }
    return e;
  };
  vector<int> chosen;
  for (size_t k = 0; k <= centers.size(); ++k) {
    double best = -1e300;
    for (int v = 0; v < n; ++v) {
      if (!(valid >> v & 1) || std::find(chosen.begin(), chosen.end(), v) != chosen.end()) continue;
      vector<int> with = chosen;
      with.push_back(v);
      best = std::max(best, quality(with) - quality(chosen));
    }
    if (k == centers.size()) {
      MC_EXPECT(best == -1e300 || (best <= 1e-9 && static_cast<int>(k) >= o.min_views)) << "stopped after " << k << " views with " << best << " to be gained";
      break;
    }
    const int v = centers[k];
    MC_REQUIRE(v >= 0 && v < n && valid >> v & 1) << "view " << v << " is not a valid one";
    MC_REQUIRE(std::find(chosen.begin(), chosen.end(), v) == chosen.end()) << "view " << v << " is chosen twice";
    vector<int> with = chosen;
    with.push_back(v);
    const double gain = quality(with) - quality(chosen);
    MC_EXPECT(gain >= best - 1e-9) << "view " << v << " gains " << gain << " where " << best << " is possible";
    MC_EXPECT(gain > -1e-9 || static_cast<int>(k) < o.min_views) << "view " << v << " makes it worse by " << gain;
    chosen = with;
  }
  MC_REQUIRE(static_cast<int>(membership.size()) == n) << "membership of " << membership.size() << " views";
  for (int i = 0; i < n; ++i) {
    MC_REQUIRE(membership.count(i)) << "view " << i << " is not in the result";
    int want = -1;
    double best = 0;
    for (size_t k = 0; k < centers.size(); ++k) if (similarity(i, centers[k]) > best) best = similarity(i, centers[k]), want = k;
    const int m = membership[i];
    MC_EXPECT(m == want || (m >= 0 && want >= 0 && m < static_cast<int>(centers.size()) && similarity(i, centers[m]) == best)) << "view " << i << " is in cluster " << m << " instead of " << want;
  }
  mc::Outcome(mc::H()(n)(static_cast<int>(centers.size())).h);
  mc::H h;
  h(valid)(o.min_views)(o.size_penalty_weight)(o.similarity_penalty_weight)(o.view_score_weight)(loops);
  for (auto& r : g.w) h(r);
  mc::State(h.h);
}

// ---- visibility -----------------------------------------------------------------
MC_SCENARIO(Visibility, .split = 6, .weight = 2) {
  const int ne = mc::Range(0, mc::Bound(2, 3), "eliminated"), nf = mc::Range(0, 3, "others");
  if (ne + nf == 0) return;
  // One or two rows per eliminated block with any of the others, and one without.
  ci::CompressedRowBlockStructure bs;
  int pos = 0;
  for (int i = 0; i < ne + nf; ++i) bs.cols.emplace_back(1 + i % 2, pos), pos += 1 + i % 2;
  vector<std::set<int>> want(nf);
  int row = 0;
  auto add = [&](int e, int mask) {
    ci::CompressedRow r(1);
    r.block = ci::Block(1, row++);
    r.cells.clear();
    if (e >= 0) r.cells.emplace_back(e, 0);
    for (int f = 0; f < nf; ++f)
      if (mask >> f & 1) {
        r.cells.emplace_back(ne + f, 0);
        if (e >= 0) want[f].insert(e);
      }
    if (!r.cells.empty()) bs.rows.push_back(r);
  };
  for (int e = 0; e < ne; ++e) {
    const int rows = mc::Range(1, 2, "rows");
    for (int r = 0; r < rows; ++r) add(e, mc::Choose(1 << nf, "cells"));
  }
  if (nf > 0) add(-1, mc::Choose(1 << nf, "cells of the last row"));
  if (mc::Skipping()) return;
  vector<absl::btree_set<int>> visibility(7);
  visibility[0].insert(4);
  ci::ComputeVisibility(bs, ne, &visibility);
  MC_REQUIRE(static_cast<int>(visibility.size()) == nf) << "visibility of " << visibility.size() << " blocks";
  for (int f = 0; f < nf; ++f) MC_EXPECT((std::set<int>(visibility[f].begin(), visibility[f].end()) == want[f])) << "visibility of " << f;
  auto graph = ci::CreateSchurComplementGraph(visibility);
  MC_REQUIRE(static_cast<int>(graph->vertices().size()) == nf) << "graph of " << graph->vertices().size() << " vertices";
  mc::H h;
  for (int f = 0; f < nf; ++f) {
    MC_EXPECT(graph->VertexWeight(f) == 1) << "vertex weight";
    for (int k = 0; k < nf; ++k) {
      int common = 0;
      for (int e : want[f]) common += want[k].count(e);
      const double w = f == k ? 1.0 : common == 0 ? 0.0 : common / std::sqrt(1.0 * want[f].size() * want[k].size());
      MC_EXPECT(vu::Near(graph->EdgeWeight(f, k), w, 1e-14)) << "weight of " << f << " " << k << ": " << graph->EdgeWeight(f, k) << " instead of " << w;
      MC_EXPECT(graph->Neighbors(f).count(k) == (w > 0)) << "neighbours " << f << " " << k;
      h(w);
    }
  }
  mc::State(h.h);
  mc::Outcome(h.h);
}
}  // namespace
