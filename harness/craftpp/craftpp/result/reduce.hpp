#pragma once

#include <craftpp/result/result.hpp>

namespace craftpp::result {

// Calls f for each item, stops at the first error.
template<typename It, typename F>
MaybeError reduce(It begin, It end, F&& f) {
    for (; begin != end; ++begin) {
        MaybeError r = f(*begin);
        if (r.is_err()) { return r; }
    }
    return success();
}

// Folds f(accumulator, item) -> Result<accumulator>, stops at the first error.
template<typename It, typename Acc, typename F>
Result<std::decay_t<Acc>> reduce(It begin, It end, Acc&& init, F&& f) {
    Result<std::decay_t<Acc>> acc(std::forward<Acc>(init));
    for (; begin != end; ++begin) {
        acc = f(std::move(acc).unwrap(), *begin);
        if (acc.is_err()) { return acc; }
    }
    return acc;
}

}
