// Every differentiable operation of the library on three small inputs; used by several checks.
#pragma once
#include "refops.h"
#include "Functions.h"
namespace {
using namespace mc;
typedef std::vector<Tensor> TL;
struct Op { const char* n; int in; std::function<TL(TL&)> f; };   // in: number of float inputs that take part in differentiation
Tensor I64(std::initializer_list<double> v, Sh s) { return mk(RT(s, std::vector<double>(v)), DType::Int64); }
TL one(Tensor t) { return {std::move(t)}; }
TL two(TensorPair p) { return {p.first, p.second}; }
// inputs: x0 (2,3), x1 (2,3), x2 (3,2), x3 (3)
const std::vector<Op>& ops() {
  using namespace function;
#define O(n, k, e) {n, k, [](TL& x) -> TL { return e; }}
  static const std::vector<Op> v = {
    O("add", 2, one(x[0] + x[1])), O("add-broadcast", 2, one(function::add(x[0], x[1].narrow(0, 0, 1)))), O("sub", 2, one(x[0] - x[1])), O("mul", 2, one(x[0] * x[1])), O("div", 2, one(x[0] / x[1])),
    O("add-scalar", 1, one(x[0] + Scalar(1.f))), O("rsub-scalar", 1, one(1.f - x[0])), O("rdiv-scalar", 1, one(1.f / x[0])), O("mul-scalar", 1, one(x[0] * Scalar(2.f))),
    O("sin", 1, one(x[0].sin())), O("cos", 1, one(x[0].cos())), O("sqrt", 1, one(x[0].sqrt())), O("pow", 2, one(x[0].pow(x[1]))), O("pow-scalar", 1, one(x[0].pow(Scalar(2)))),
    O("maximum", 2, one(function::maximum(x[0], x[1]))), O("minimum", 2, one(function::minimum(x[0], x[1]))),
    O("lt", 2, one(x[0] < x[1])), O("le", 2, one(x[0] <= x[1])), O("gt", 2, one(x[0] > x[1])), O("ge", 2, one(x[0] >= x[1])), O("eq", 2, one(x[0] == x[1])), O("ne", 2, one(x[0] != x[1])), O("lt-scalar", 1, one(x[0] < Scalar(1.f))),
    O("relu", 1, one(relu(x[0]))), O("gelu", 1, one(gelu(x[0]))), O("silu", 1, one(silu(x[0]))), O("softmax", 1, one(softmax(x[0], 1))), O("logSoftmax", 1, one(logSoftmax(x[0], 0))),
    O("matmul", 2, one(x[0].matmul(x[1], false, true))), O("mseLoss", 1, one(mseLoss(x[0], mk(RT(Sh{2, 3}, 0.5))))), O("mseLoss-none", 1, one(mseLoss(x[0], mk(RT(Sh{2, 3}, 0.5)), LossReduction::NONE))), O("nllLoss", 1, one(nllLoss(x[0], I64({2, 0}, {2})))),
    O("linear", 2, one(linear(x[0], x[1]))), O("linear-bias", 3, one(linear(x[0], x[1], x[2].narrow(0, 0, 1).flatten()))), O("dropout-eval", 1, one(dropout(x[0], 0.5f, false))), O("dropout-0", 1, one(dropout(x[0], 0.f, true))),
    O("maxPool2d", 1, one(maxPool2d(x[0].reshape({1, 1, 2, 3}), Dim2D(2), Dim2D(1)))), O("conv2d", 2, one(conv2d(x[0].reshape({1, 1, 2, 3}), x[1].reshape({1, 1, 2, 3})))),
    O("embedding", 1, one(embedding(I64({1, 0, 1}, {3}), x[0]))), O("layerNorm", 1, one(layerNorm(x[0], IntArrayView{3}, mk(RT(Sh{3}, 1.0)), mk(RT(Sh{3}, 0.5)), 1e-5f))), O("rmsNorm", 1, one(rmsNorm(x[0], IntArrayView{3}, mk(RT(Sh{3}, 1.0)), 1e-5f))),
    O("sdpAttention", 3, one(sdpAttention(x[0].reshape({1, 1, 2, 3}), x[1].reshape({1, 1, 2, 3}), x[2].reshape({1, 1, 2, 3})))), O("siluMul", 1, one(siluMul(x[0].reshape({3, 2})))),
    O("min", 1, one(x[0].min())), O("max", 1, one(x[0].max())), O("argmin", 1, one(x[0].argmin())), O("argmax", 1, one(x[0].argmax())), O("min-dim", 1, two(x[0].min(1, false))), O("max-dim", 1, two(x[0].max(0, true))),
    O("argmin-dim", 1, one(x[0].argmin(1))), O("argmax-dim", 1, one(x[0].argmax(0, true))), O("sum", 1, one(x[0].sum())), O("sum-dim", 1, one(x[0].sum(1))), O("sum-dims", 1, one(x[0].sum({0, 1}, true))),
    O("mean", 1, one(x[0].mean())), O("mean-dim", 1, one(x[0].mean(0, true))), O("mean-dims", 1, one(x[0].mean({0, 1}))), O("var", 1, one(x[0].var())), O("var-dim", 1, one(x[0].var(1, true))), O("var-dims", 1, one(x[0].var({0, 1}))),
    O("varMean", 1, two(varMean(x[0], true))), O("varMean-dim", 1, two(varMean(x[0], 1, true, false))),
    O("topk", 1, two(topk(x[0], 2, 1))), O("sort", 1, two(sort(x[0], 1))), O("cumsum", 1, one(cumsum(x[0], 1))),
    O("reshape", 1, one(x[0].reshape({3, 2}))), O("reshape-same", 1, one(x[0].reshape({2, 3}))), O("view", 1, one(x[0].view({6}))), O("view-same", 1, one(x[0].view({2, 3}))), O("permute", 1, one(x[0].permute({1, 0}))), O("permute-id", 1, one(x[0].permute({0, 1}))), O("permute-all", 1, one(x[0].permute())),
    O("flatten", 1, one(x[0].flatten())), O("flatten-none", 1, one(x[0].flatten(0, 0))), O("unflatten", 1, one(x[0].unflatten(1, {1, 3}))), O("squeeze-none", 1, one(x[0].squeeze(0))), O("squeeze", 1, one(x[0].reshape({1, 2, 3}).squeeze(0))), O("unsqueeze", 1, one(x[0].unsqueeze(0))),
    O("transpose", 1, one(x[0].transpose(0, 1))), O("transpose-same", 1, one(x[0].transpose(1, 1))), O("t", 1, one(x[0].t())), O("tril", 1, one(x[0].tril())), O("triu-all", 1, one(x[0].triu(-5))),
    O("split", 1, x[0].split(1, 0)), O("split-whole", 1, x[0].split(3, 1)), O("split-sections", 1, x[0].split({1, 2}, 1)), O("chunk", 1, x[0].chunk(3, 1)), O("chunk-one", 1, x[0].chunk(1, 0)),
    O("concat", 2, (one([&] { Tensor a[2] = {x[0], x[1]}; return function::concat(ArrayView<Tensor>(a, 2), 0); }()))), O("stack", 3, (one([&] { Tensor a[3] = {x[0], x[1], x[2].reshape({2, 3})}; return function::stack(ArrayView<Tensor>(a, 3), 0); }()))),
    O("concat-one", 1, (one([&] { Tensor a[1] = {x[0]}; return function::concat(ArrayView<Tensor>(a, 1), 0); }()))), O("hstack", 2, (one([&] { Tensor a[2] = {x[0], x[1]}; return function::hstack(ArrayView<Tensor>(a, 2)); }()))), O("vstack", 2, (one([&] { Tensor a[2] = {x[0], x[1]}; return function::vstack(ArrayView<Tensor>(a, 2)); }()))),
    O("narrow", 1, one(x[0].narrow(0, 1, 1))), O("narrow-whole", 1, one(x[0].narrow(0, 0, 2))), O("gather", 1, one(function::gather(x[0], 1, I64({0, 2}, {2, 1})))),
    O("scatter", 2, one(function::scatter(x[0], 0, I64({1, 0, 1}, {1, 3}), x[1]))), O("expand", 1, one(function::expand(x[0], IntArrayView{2, 2, 3}))), O("expand-same", 1, one(function::expand(x[0], IntArrayView{2, 3}))),
    O("indexSelect", 1, one(function::indexSelect(x[0], 1, I64({2, 0}, {2})))), O("repeatInterleave", 1, one(function::repeatInterleave(x[0], 2, 0))), O("repeatInterleave-1", 1, one(function::repeatInterleave(x[0], 1, 0))),
    O("ropeApply", 1, one(ropeApply(x[0].reshape({1, 1, 1, 6}).narrow(3, 0, 2), op::ropeInit((int64_t)2, (int64_t)8, 10000.f, std::nullopt, options::dtype(DType::Float32))))),
  };
  return v;
}
const RT& val(int k) {
  static const RT v[3] = {RT(Sh{2, 3}, {0.5, 1.25, 2, 0.75, 1.5, 0.25}), RT(Sh{2, 3}, {1.5, 0.5, 0.875, 1, 0.375, 2.25}), RT(Sh{3, 2}, {0.25, 1, 0.625, 1.75, 2, 0.5})};
  return v[k];
}
}
