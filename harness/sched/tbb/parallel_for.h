// Replaces the parallel loops of the code under test by loops under the control of a seeded scheduler
#pragma once
#include_next <tbb/parallel_for.h>
#include <cstddef>
#include <functional>

namespace vsched {
void loop(std::size_t count, const std::function<void(std::size_t)>& body);
}
namespace tbb {
template<class I, class F, class... A> std::enable_if_t<std::is_integral_v<I>> vsched_parallel_for(I first, I last, const F& f, A&&...)
{
    if (last > first)
        vsched::loop(static_cast<std::size_t>(last - first), [&](std::size_t i) { f(static_cast<I>(first + static_cast<I>(i))); });
}
template<class I, class F, class... A> std::enable_if_t<std::is_integral_v<I> and std::is_invocable_v<const F&, I>> vsched_parallel_for(I first, I last, I step, const F& f, A&&...)
{
    if (last > first)
        vsched::loop(static_cast<std::size_t>((last - first + step - 1) / step), [&](std::size_t i) { f(static_cast<I>(first + static_cast<I>(i) * step)); });
}
template<class R, class F, class... A> std::enable_if_t<not std::is_integral_v<R>> vsched_parallel_for(const R& range, const F& f, A&&...)
{
    using V = decltype(range.begin());
    vsched::loop(static_cast<std::size_t>(range.end() - range.begin()), [&](std::size_t i) {
        const V b = static_cast<V>(range.begin() + static_cast<V>(i));
        f(R(b, b + 1, 1));
    });
}
} // namespace tbb
#define parallel_for vsched_parallel_for
