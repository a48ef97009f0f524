// Stand-in for the NCCL backend (no CUDA here): collective calls are handed to the check.
#pragma once
#include <functional>
#include "Distributed/Backend.h"
#include "Distributed/Store.h"
namespace tinytorch::distributed {
class BackendNCCL : public Backend {
 public:
  struct Call {
    const char* op;
    std::vector<Tensor>* tensors = nullptr;                 // the caller's tensors
    std::vector<std::vector<Tensor>>* lists = nullptr;
    int root = -1;
    int red = -1;
    const BarrierOptions* barrier = nullptr;
  };
  static inline std::function<std::shared_ptr<Work>(BackendNCCL&, Call)> handler;
  BackendNCCL(const std::shared_ptr<Store>& store, int rank, int size)
      : Backend(rank, size), store_(store), options_(std::make_shared<BackendOptions>("nccl", std::chrono::milliseconds(10 * 60 * 1000))) {}
  void setTimeout(std::chrono::milliseconds t) override { options_->timeout = t; }
  std::string getBackendName() const override { return "nccl"; }
  std::shared_ptr<BackendOptions> getBackendOptions() override { return options_; }
  std::shared_ptr<Work> broadcast(std::vector<Tensor>& t, const BroadcastOptions& o) override { return give({"broadcast", &t, nullptr, o.rootRank}); }
  std::shared_ptr<Work> allReduce(std::vector<Tensor>& t, const AllReduceOptions& o) override { return give({"allReduce", &t, nullptr, -1, o.reduceOp}); }
  std::shared_ptr<Work> reduce(std::vector<Tensor>& t, const ReduceOptions& o) override { return give({"reduce", &t, nullptr, o.rootRank, o.reduceOp}); }
  std::shared_ptr<Work> allGather(std::vector<std::vector<Tensor>>& out, std::vector<Tensor>& in, const AllGatherOptions&) override { return give({"allGather", &in, &out}); }
  std::shared_ptr<Work> reduceScatter(std::vector<Tensor>& out, std::vector<std::vector<Tensor>>& in, const ReduceScatterOptions& o) override { return give({"reduceScatter", &out, &in, -1, o.reduceOp}); }
  std::shared_ptr<Work> send(std::vector<Tensor>& t, int dst) override { return give({"send", &t, nullptr, dst}); }
  std::shared_ptr<Work> recv(std::vector<Tensor>& t, int src) override { return give({"recv", &t, nullptr, src}); }
  std::shared_ptr<Work> barrier(const BarrierOptions& o) override { return give({"barrier", nullptr, nullptr, -1, -1, &o}); }
  void shutdown() override { shut_++; }
  void abort() override { aborted_++; }
  std::shared_ptr<Work> give(Call c) { return handler ? handler(*this, c) : nullptr; }
  std::shared_ptr<Store> store_;
  std::shared_ptr<BackendOptions> options_;
  int shut_ = 0, aborted_ = 0;
};
}  // namespace tinytorch::distributed
