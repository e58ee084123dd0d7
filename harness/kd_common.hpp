// Shared by the harnesses that build KD-trees.
#pragma once
#include "sx.hpp"
#include "sx_rt.hpp"
#include "sx_random.hpp"
#include "ffcl/datastruct/tree/kdtree/KDTree.hpp"
#include "ffcl/search/Search.hpp"

namespace kd {
using IndicesIt = std::vector<std::size_t>::iterator;
template <typename T> using SamplesIt = typename std::vector<T>::iterator;
template <typename T> using Tree = ffcl::datastruct::KDTree<IndicesIt, SamplesIt<T>>;
template <typename T> using Options = typename Tree<T>::Options;
namespace policy = ffcl::datastruct::kdtree::policy;

constexpr std::size_t DEFAULT_DEPTH = 999;
// a fixed cloud of points on a small grid, with repeated coordinates
inline float cloud(std::size_t i, std::size_t f) { return (float)(int)((i * (f ? 5 : 7) + (i / 6) * (3 + f) + 2 * f) % 9) - 2.f; }
// the same in any element type
template <typename T>
inline T cloud_of(std::size_t i, std::size_t f) { return (T)(cloud(i, f) + (std::is_unsigned_v<T> ? 5.f : 0.f)); }
// a fixed cloud in many dimensions, and a query beside one of its first samples of which one coordinate, at any position, is free
inline float wide(std::size_t i, std::size_t f) { return (float)(int)((i * (3 + 2 * f) + (i * i) % (f + 2) + f) % 7) - 3.f; }
inline void wide_query(std::vector<float>& q, std::size_t D) {
    static const float u[] = {-4.f, -0.5f, 0.f, 5.f};
    const std::size_t base = sx_concretize(sx_choice("beside", 3)), at = sx_concretize(sx_choice("coordinate", (uint32_t)D));
    for (std::size_t f = 0; f < D; ++f) q[f] = wide(base, f);
    q[at] = sx::pick("query", u);
}
enum Axis { CYCLE = 0, SPREAD = 1, VARIANCE = 2 };

template <typename T>
inline Options<T> options(int axis, std::size_t bucket, std::size_t depth, const std::vector<std::size_t>& mask = {}) {
    Options<T> o;
    o.bucket_size(bucket);
    if (depth != DEFAULT_DEPTH) o.max_depth(depth);  // by default the depth is not limited
    if (axis == CYCLE) o.axis_selection_policy(policy::CycleThroughAxesBuild<IndicesIt, SamplesIt<T>>().feature_mask(mask));
    else if (axis == SPREAD) o.axis_selection_policy(policy::MaximumSpreadBuild<IndicesIt, SamplesIt<T>>().feature_mask(mask));
    else o.axis_selection_policy(policy::HighestVarianceBuild<IndicesIt, SamplesIt<T>>().sampling_rate(0.5).feature_mask(mask));
    o.splitting_rule_policy(policy::QuickselectMedianRange<IndicesIt, SamplesIt<T>>());
    return o;
}
}  // namespace kd
