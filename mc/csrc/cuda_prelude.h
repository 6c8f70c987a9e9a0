// Included before each .cu file when it is compiled for the host (check C22): thrust runs on its sequential backend, the
// operators are registered for CPU tensors, and inclusive_scan_by_key is the exploration of all scan trees below.
#pragma once
#include <torch/script.h>
#include <torch/torch.h>

#include <thrust/copy.h>
#include <thrust/device_vector.h>
#include <thrust/execution_policy.h>
#include <thrust/for_each.h>
#include <thrust/functional.h>
#include <thrust/iterator/counting_iterator.h>
#include <thrust/iterator/transform_iterator.h>
#include <thrust/iterator/transform_output_iterator.h>
#include <thrust/iterator/zip_iterator.h>
#include <thrust/pair.h>
#include <thrust/scan.h>
#include <thrust/transform.h>
#include <thrust/tuple.h>
#include <thrust/zip_function.h>

#include <vector>

extern "C" long mc_cells, mc_ops, mc_scans, mc_differs, mc_outputs;

namespace thrust
{
// The value that a parallel scan gives element i of a segment is op applied in some bracketing of the segment's elements
// up to i. cell(lo, hi) is the set of values of all bracketings of the elements lo..hi.
template <class Policy, class K, class V, class Out, class Pred, class Op>
Out mc_scan_by_key(Policy &&, K first, K last, V values, Out out, Pred pred, Op op)
{
    using T = typename ::cuda::std::iterator_traits<V>::value_type;
    long n = last - first;
    mc_scans++;
    std::vector<T> v;
    v.reserve(n);
    for (long i = 0; i < n; i++)
        v.push_back(values[i]);
    for (long s = 0; s < n;)
    {
        long e = s + 1;
        while (e < n && pred(first[e - 1], first[e]))
            e++;
        long m = e - s;
        std::vector<std::vector<std::vector<T>>> cell(m, std::vector<std::vector<T>>(m));
        for (long len = 1; len <= m; len++)
            for (long lo = 0; lo + len <= m; lo++)
            {
                auto &c = cell[lo][lo + len - 1];
                if (len == 1)
                    c.push_back(v[s + lo]);
                for (long cut = lo; cut < lo + len - 1; cut++)
                    for (const T &x : cell[lo][cut])
                        for (const T &y : cell[cut + 1][lo + len - 1])
                        {
                            T z = op(x, y);
                            mc_ops++;
                            bool seen = false;
                            for (const T &w : c)
                                seen = seen || w == z;
                            if (!seen && c.size() < 4)
                                c.push_back(z);
                        }
                mc_cells += c.size();
            }
        for (long i = 0; i < m; i++)
        {
            auto &c = cell[0][i];
            mc_outputs++;
            if (c.size() > 1)
                mc_differs++; // the result depends on the tree
            out[s + i] = c.back();
        }
        s = e;
    }
    return out + n;
}
template <class K, class V, class Out, class Pred, class Op>
Out mc_scan_by_key_np(K first, K last, V values, Out out, Pred pred, Op op)
{
    return mc_scan_by_key(0, first, last, values, out, pred, op);
}
} // namespace thrust

#define inclusive_scan_by_key mc_scan_by_key
#undef TORCH_LIBRARY_IMPL
#define TORCH_LIBRARY_IMPL(ns, k, m) _TORCH_LIBRARY_IMPL(ns, CPU, m, C10_UID)
