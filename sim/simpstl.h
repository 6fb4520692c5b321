// Force-included before every translation unit of the simulated program.
// Replaces the parallel back end of libstdc++'s <execution> algorithms by one whose work
// distribution and interleaving are decided by the simulator (simrt.cpp).
#ifndef FG_SIMPSTL_H
#define FG_SIMPSTL_H
#ifdef __cplusplus
#define _PSTL_PARALLEL_BACKEND_SERIAL_H  // keep the stock serial back end out
#include <algorithm>
#include <cstddef>
#include <memory>
#include <numeric>
#include <optional>
#include <utility>
#include <vector>

extern "C" {
// run body(ctx, k) for k in [0, n), concurrently as far as the program can tell
void fg_sim_region(long n, void (*body)(void *, long), void *ctx);
// split a range of n elements in chunks: returns the number of chunks, cuts[0..chunks] are offsets
long fg_sim_split(long n, long *cuts, long maxchunks);
}

namespace __pstl
{
namespace __serial_backend
{
enum { __fg_max_chunks = 64 };

template <typename _Tp>
class __buffer
{
    std::allocator<_Tp> __allocator_;
    _Tp* __ptr_;
    const std::size_t __buf_size_;
    __buffer(const __buffer&) = delete;
    void operator=(const __buffer&) = delete;
  public:
    __buffer(std::size_t __n) : __allocator_(), __ptr_(__allocator_.allocate(__n)), __buf_size_(__n) {}
    operator bool() const { return __ptr_ != nullptr; }
    _Tp* get() const { return __ptr_; }
    ~__buffer() { __allocator_.deallocate(__ptr_, __buf_size_); }
};

inline void __cancel_execution() {}

template <class _Body>
void __fg_run(long __n, _Body &__b)
{
    fg_sim_region(__n, [](void *__c, long __k) { (*static_cast<_Body *>(__c))(__k); }, &__b);
}

template <class _ExecutionPolicy, class _Index, class _Fp>
void __parallel_for(_ExecutionPolicy&&, _Index __first, _Index __last, _Fp __f)
{
    long __cuts[__fg_max_chunks + 1];
    const long __n = fg_sim_split(long(__last - __first), __cuts, __fg_max_chunks);
    auto __body = [&](long __k) { __f(__first + __cuts[__k], __first + __cuts[__k + 1]); };
    __fg_run(__n, __body);
}

template <class _Tp, class _Op>
_Tp __fg_combine(std::vector<std::optional<_Tp>> &__parts, _Tp __acc, _Op __op)
{
    for (auto &__p : __parts)
        __acc = __op(__acc, *__p);  // in order, as the TBB back end does
    return __acc;
}

template <class _ExecutionPolicy, class _Value, class _Index, typename _RealBody, typename _Reduction>
_Value __parallel_reduce(_ExecutionPolicy&&, _Index __first, _Index __last, const _Value& __identity,
                         const _RealBody& __real_body, const _Reduction& __reduction)
{
    if (__first == __last)
        return __identity;
    long __cuts[__fg_max_chunks + 1];
    const long __n = fg_sim_split(long(__last - __first), __cuts, __fg_max_chunks);
    std::vector<std::optional<_Value>> __parts(__n);
    auto __body = [&](long __k)
        { __parts[__k].emplace(__real_body(__first + __cuts[__k], __first + __cuts[__k + 1], __identity)); };
    __fg_run(__n, __body);
    _Value __acc = *__parts[0];  // order is preserved here, as in the TBB back end
    for (long __k = 1; __k < __n; ++__k)
        __acc = __reduction(__acc, *__parts[__k]);
    return __acc;
}

template <class _ExecutionPolicy, class _Index, class _UnaryOp, class _Tp, class _BinaryOp, class _Reduce>
_Tp __parallel_transform_reduce(_ExecutionPolicy&&, _Index __first, _Index __last, _UnaryOp __u, _Tp __init,
                                _BinaryOp __combine, _Reduce __reduce)
{
    if (__first == __last)
        return __init;
    long __cuts[__fg_max_chunks + 1];
    const long __n = fg_sim_split(long(__last - __first), __cuts, __fg_max_chunks);
    if (__n == 1)
        return __reduce(__first, __last, __init);
    std::vector<std::optional<_Tp>> __parts(__n);
    auto __body = [&](long __k)
        {
        _Index __b = __first + __cuts[__k], __e = __first + __cuts[__k + 1];
        _UnaryOp __uu = __u;  // each TBB body works on its own copies
        _Reduce __rr = __reduce;
        _Tp __v = __uu(__b);
        ++__b;
        __parts[__k].emplace(__b == __e ? __v : __rr(__b, __e, __v));
        };
    __fg_run(__n, __body);
    return __fg_combine(__parts, __init, __combine);
}

template <class _ExecutionPolicy, typename _Index, typename _Tp, typename _Rp, typename _Cp, typename _Sp, typename _Ap>
void __parallel_strict_scan(_ExecutionPolicy&&, _Index __n, _Tp __initial, _Rp __reduce, _Cp __combine, _Sp __scan,
                            _Ap __apex)
{
    _Tp __sum = __initial;
    if (__n)
        __sum = __combine(__sum, __reduce(_Index(0), __n));
    __apex(__sum);
    if (__n)
        __scan(_Index(0), __n, __initial);
}

template <class _ExecutionPolicy, class _Index, class _UnaryOp, class _Tp, class _BinaryOp, class _Reduce, class _Scan>
_Tp __parallel_transform_scan(_ExecutionPolicy&&, _Index __n, _UnaryOp, _Tp __init, _BinaryOp, _Reduce, _Scan __scan)
{
    return __scan(_Index(0), __n, __init);
}

template <class _ExecutionPolicy, typename _RandomAccessIterator, typename _Compare, typename _LeafSort>
void __parallel_stable_sort(_ExecutionPolicy&&, _RandomAccessIterator __first, _RandomAccessIterator __last,
                            _Compare __comp, _LeafSort __leaf_sort, std::size_t = 0)
{
    long __cuts[__fg_max_chunks + 1];
    const long __n = fg_sim_split(long(__last - __first), __cuts, __fg_max_chunks);
    auto __body = [&](long __k) { __leaf_sort(__first + __cuts[__k], __first + __cuts[__k + 1], __comp); };
    __fg_run(__n, __body);
    for (long __k = 1; __k < __n; ++__k)
        std::inplace_merge(__first, __first + __cuts[__k], __first + __cuts[__k + 1], __comp);
}

template <class _ExecutionPolicy, typename _RandomAccessIterator1, typename _RandomAccessIterator2,
          typename _RandomAccessIterator3, typename _Compare, typename _LeafMerge>
void __parallel_merge(_ExecutionPolicy&&, _RandomAccessIterator1 __first1, _RandomAccessIterator1 __last1,
                      _RandomAccessIterator2 __first2, _RandomAccessIterator2 __last2, _RandomAccessIterator3 __outit,
                      _Compare __comp, _LeafMerge __leaf_merge)
{
    __leaf_merge(__first1, __last1, __first2, __last2, __outit, __comp);
}

template <class _ExecutionPolicy, typename _F1, typename _F2>
void __parallel_invoke(_ExecutionPolicy&&, _F1&& __f1, _F2&& __f2)
{
    auto __body = [&](long __k)
        {
        if (__k == 0)
            std::forward<_F1>(__f1)();
        else
            std::forward<_F2>(__f2)();
        };
    __fg_run(2, __body);
}
} // namespace __serial_backend
} // namespace __pstl
#endif
#endif
