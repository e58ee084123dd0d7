// What the trees write.  The file system is outside the encoding: the output file is a stand-in that keeps what is
// written to it; rapidjson itself is executed.
#include "sx.hpp"
#include "sx_random.hpp"
#include "sx_rt.hpp"
#include <filesystem>
#include <fstream>
#include <vector>
namespace std {
struct sx_output_file {  // in place of std::ofstream
    static std::vector<char>& text() { static std::vector<char> t; return t; }
    bool open_ = true;
    template <typename P> explicit sx_output_file(const P&, int = 0) { text().clear(); }
    void close() { open_ = false; }
    void flush() {}
    sx_output_file& put(char c) { sx_assert(open_, "serialize: written while the file is open"); text().push_back(c); return *this; }
    sx_output_file& write(const char* s, std::size_t n) { while (n--) put(*s++); return *this; }
    friend sx_output_file& operator<<(sx_output_file& f, const char* s) { while (*s) f.put(*s++); return f; }
    friend sx_output_file& operator<<(sx_output_file& f, char c) { return f.put(c); }
    bool good() const { return open_; }
    bool fail() const { return !open_; }
    bool is_open() const { return open_; }
    explicit operator bool() const { return open_; }
};
namespace sx_filesystem {
struct path { path(const char*) {} };  // in place of std::filesystem::path
}
}  // namespace std
#include "rapidjson/rapidjson.h"
#define RAPIDJSON_OSTREAMWRAPPER_H_
namespace rapidjson {
struct OStreamWrapper {
    using Ch = char;
    explicit OStreamWrapper(std::sx_output_file& f) : f_{f} {}
    void Put(Ch c) { f_.put(c); }
    void Flush() {}
    std::sx_output_file& f_;
};
}  // namespace rapidjson
#include "rapidjson/document.h"
#include "rapidjson/istreamwrapper.h"
#define ofstream sx_output_file
#define filesystem sx_filesystem
#include "kd_common.hpp"
#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"
#undef ofstream
#undef filesystem
namespace ds = ffcl::datastruct;
using Json = rapidjson::Value;

static void parse(rapidjson::Document& doc) {
    std::sx_output_file::text().push_back(0);
    doc.Parse<rapidjson::kParseFullPrecisionFlag>(std::sx_output_file::text().data());
    std::sx_output_file::text().pop_back();
    sx_assert(!doc.HasParseError() && doc.IsObject(), "serialize: the file is a JSON object");
}
static const Json& at(const Json& o, const char* key) {
    sx_assert(o.IsObject() && o.HasMember(key), "serialize: the documented keys are there");
    return o[key];
}
template <typename T>
static int same(const Json& v, T x) {
    if constexpr (std::is_unsigned_v<T>) return v.IsUint64() && v.GetUint64() == (std::uint64_t)x;
    else if constexpr (std::is_integral_v<T>) return v.IsInt64() && v.GetInt64() == (std::int64_t)x;
    else return v.IsNumber() && v.GetDouble() == (double)x;
}
template <typename T, std::size_t D, typename Node>
static std::size_t walk(const Json& j, const Node& n, const std::vector<T>& s) {
    sx_assert(same<std::int64_t>(at(j, "axis"), n->cut_axis_feature_index_), "kdtree file: cut feature");
    const Json& p = at(j, "points");
    std::size_t count = n->n_samples();
    sx_assert(p.IsArray() && p.Size() == count, "kdtree file: the samples of the node");
    int ok = 1;
    rapidjson::SizeType r = 0;
    for (const auto i : *n) {
        sx_assert(p[r].IsArray() && p[r].Size() == D, "kdtree file: the features of a sample");
        for (std::size_t f = 0; f < D; ++f) ok &= same<T>(p[r][(rapidjson::SizeType)f], s[i * D + f]);
        ++r;
    }
    sx_assert(ok, "kdtree file: the values of the samples");
    if (n->is_leaf()) { sx_assert(!j.HasMember("left") && !j.HasMember("right"), "kdtree file: a leaf has no children"); return count; }
    count += walk<T, D>(at(j, "left"), n->left_, s);
    return count + walk<T, D>(at(j, "right"), n->right_, s);
}
template <typename T, std::size_t N, std::size_t D>
static void kdtree_file(std::vector<T>& s, int axis, std::size_t bucket, std::size_t depth, std::size_t first = 0) {
    std::vector<std::size_t> ix;
    for (std::size_t i = first; i < N; ++i) ix.push_back(i);
    kd::Tree<T> built(ix.begin(), ix.end(), s.begin(), s.end(), D, kd::options<T>(axis, bucket, depth));
    const bool moved = sx_concretize(sx_choice("moved", 2));
    const kd::Tree<T> t = moved ? kd::Tree<T>(std::move(built)) : kd::Tree<T>(built);
    t.serialize("tree.json");
    rapidjson::Document doc;
    parse(doc);
    sx_assert(same<std::int64_t>(at(doc, "n_samples"), N - first) & same<std::int64_t>(at(doc, "n_features"), D), "kdtree file: number of samples and features");
    const Json& o = at(doc, "options");
    sx_assert(same<std::uint64_t>(at(o, "bucket_size"), bucket), "kdtree file: bucket size");
    const std::size_t max_depth = depth == kd::DEFAULT_DEPTH ? std::numeric_limits<std::size_t>::max() : depth;
    sx_assert(at(o, "max_depth").IsUint64() && o["max_depth"].GetUint64() == max_depth, "kdtree file: depth limit");
    const Json& b = at(doc, "bounding_box");
    sx_assert(b.IsArray() && b.Size() == D, "kdtree file: a segment of the bounding box per feature");
    int box = 1;
    for (std::size_t f = 0; f < D; ++f) {
        const Json& g = b[(rapidjson::SizeType)f];
        sx_assert(g.IsArray() && g.Size() == 2, "kdtree file: two ends per segment");
        T lo = s[first * D + f], hi = lo;
        for (std::size_t i = first + 1; i < N; ++i) { lo = s[i * D + f] < lo ? s[i * D + f] : lo; hi = s[i * D + f] > hi ? s[i * D + f] : hi; }
        box &= same<T>(g[0], lo) & same<T>(g[1], hi);
    }
    sx_assert(box, "kdtree file: the bounding box of the indexed samples");
    sx_assert((walk<T, D>(at(doc, "root"), t.root(), s) == N - first), "kdtree file: every indexed sample is written");
    for (const char c : std::sx_output_file::text()) sx::emit((int)c);
    sx_reach("kdtree file");
}
HARNESS(kdtree_int_n3d1) {
    static const int t[] = {-2147483647 - 1, -100, -7, 0, 9, 10, 123456, 2147483647};
    std::vector<int> s(3);
    for (auto& v : s) v = sx::pick("value", t);
    kdtree_file<int, 3, 1>(s, kd::CYCLE, 1, kd::DEFAULT_DEPTH);
}
HARNESS(kdtree_small_int_n1d1) {
    std::vector<int> s(1);
    s[0] = sx::any_i32("value");
    sx_assume((s[0] >= -110) & (s[0] <= 110));
    kdtree_file<int, 1, 1>(s, kd::CYCLE, 1, kd::DEFAULT_DEPTH);
}
template <typename T> static T concrete(T v) { std::uint64_t b = 0; std::memcpy(&b, &v, sizeof v); b = sx_concretize(b); std::memcpy(&v, &b, sizeof v); return v; }
HARNESS(kdtree_float_n3d2) {
    static const float t[] = {-0.1f, 3.f, 1e-30f, 16777216.f};
    std::vector<float> s{0.3f, 2.5f, -1e10f, 0.f, 0.f, 0.f};
    for (std::size_t i = 4; i < 6; ++i) s[i] = concrete(sx::pick("value", t));
    kdtree_file<float, 3, 2>(s, kd::SPREAD, 1, 5);
}
HARNESS(kdtree_double_n3d1) {
    static const double t[] = {-0.1, 1.0 / 3, 5e-324, 1.7976931348623157e308, 0.1 + 0.2, 123456789.123456789, 9007199254740993.0 * 3, 2.2250738585072014e-308, 8.988465674311579e307};
    std::vector<double> s{0.7, 2. / 7, 0};
    s[2] = concrete(sx::pick("value", t));
    kdtree_file<double, 3, 1>(s, kd::CYCLE, 2, 3);
}
HARNESS(kdtree_bucket_n9d2) {
    std::vector<int> s;
    for (std::size_t i = 0; i < 18; ++i) s.push_back((int)kd::cloud(i / 2, i % 2));
    static const int t[] = {-3, 2, 40};
    s[7] = sx::pick("value", t);
    kdtree_file<int, 9, 2>(s, kd::CYCLE, 2, 2);
}
HARNESS(kdtree_subset_n7d2) {
    std::vector<int> s{90, -80, 70, -60};
    for (std::size_t i = 0; i < 10; ++i) s.push_back((int)kd::cloud(i / 2, i % 2));
    static const int t[] = {-3, 2, 40};
    s[7] = sx::pick("value", t);
    kdtree_file<int, 7, 2>(s, kd::CYCLE, 1, 8, 2);
}
HARNESS(kdtree_long_n3d1) {
    static const std::int64_t t[] = {-9223372036854775807ll - 1, -5000000000ll, -7, 0, 2147483648ll, 1234567890123ll, 9223372036854775807ll};
    std::vector<std::int64_t> s{3, 0, 4294967297ll};
    s[1] = sx::pick("value", t);
    kdtree_file<std::int64_t, 3, 1>(s, kd::CYCLE, 1, kd::DEFAULT_DEPTH);
}
HARNESS(kdtree_ulong_n3d1) {
    static const std::uint64_t t[] = {0, 7, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull};
    std::vector<std::uint64_t> s{3, 0, 4294967297ull};
    s[1] = sx::pick("value", t);
    kdtree_file<std::uint64_t, 3, 1>(s, kd::CYCLE, 1, kd::DEFAULT_DEPTH);
}
HARNESS(kdtree_unlimited_bucket_n3d1) {
    static const int t[] = {-3, 2, 40};
    std::vector<int> s{1, 0, 5};
    s[1] = sx::pick("value", t);
    kdtree_file<int, 3, 1>(s, kd::CYCLE, std::numeric_limits<std::size_t>::max() - sx_concretize(sx_choice("bucket", 2)), 4);
}
// single linkage tree
template <typename V, typename Node>
static std::size_t slink_walk(const Json& j, const Node& n) {
    sx_assert(same<std::int64_t>(at(j, "representative"), n->representative_), "linkage file: representative");
    sx_assert(same<V>(at(j, "level"), n->level_), "linkage file: level");
    sx_assert(same<std::int64_t>(at(j, "cluster_size"), n->size()), "linkage file: cluster size");
    if (n->is_leaf()) { sx_assert(!j.HasMember("left") && !j.HasMember("right"), "linkage file: a leaf has no children"); return 1; }
    const std::size_t l = slink_walk<V>(at(j, "left"), n->left_);
    return l + slink_walk<V>(at(j, "right"), n->right_);
}
template <typename V, std::size_t N, typename Table>
static void slink_file(const Table& table, bool conc) {
    typename ds::mst::EdgesList<std::size_t, V> e;
    for (std::size_t i = 1; i < N; ++i) {
        V w = sx::pick("weight", table);
        if (conc) w = concrete(w);
        e.emplace_back(i, sx_concretize(sx_choice("parent", i)), w);
    }
    const ds::SingleLinkageClusterTree<std::size_t, V> t(e);
    t.serialize("tree.json");
    rapidjson::Document doc;
    parse(doc);
    sx_assert((slink_walk<V>(at(doc, "root"), t.root()) == N), "linkage file: one leaf per sample");
    for (const char c : std::sx_output_file::text()) sx::emit((int)c);
    sx_reach("linkage file");
}
HARNESS(slink_float_n4) { static const float w[] = {0.1f, 2.f, 1e20f}; slink_file<float, 4>(w, true); }
HARNESS(slink_double_n3) { static const double w[] = {0.1, 1.0 / 3, 0.1 + 0.2, 1e-300, 4.1234567890123456e15}; slink_file<double, 3>(w, true); }
HARNESS(slink_int_n3) { static const int w[] = {0, 7, 12, 123, 99999}; slink_file<int, 3>(w, false); }
HARNESS(slink_n1) { static const float w[] = {0.f}; slink_file<float, 1>(w, true); }
HARNESS(slink_ulong_n3) { static const std::uint64_t w[] = {0, 7, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551614ull}; slink_file<std::uint64_t, 3>(w, false); }
