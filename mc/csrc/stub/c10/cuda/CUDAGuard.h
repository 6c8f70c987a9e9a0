#pragma once
#include <ATen/ATen.h>
namespace at::cuda
{
struct OptionalCUDAGuard
{
    template <class... A>
    explicit OptionalCUDAGuard(A &&...)
    {
    }
};
} // namespace at::cuda
namespace c10::cuda
{
using at::cuda::OptionalCUDAGuard;
using CUDAGuard = at::cuda::OptionalCUDAGuard;
} // namespace c10::cuda
