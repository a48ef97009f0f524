// O02: every history of scheduler steps, optimizer steps and user-set rates gives the step schedule.
#include <memory>
#include "tt.h"
#include "Optimizer.h"
#include "Scheduler.h"
using namespace mc;
using namespace tinytorch::optim;
namespace {
struct W { Tensor p, q; std::unique_ptr<Optimizer> o; std::unique_ptr<lr_scheduler::StepLR> s; double lr = 0, base = 0, gamma = 0, pv = 0, mom = 0; bool first = true; int64_t size = 1, epoch = 0, n = 0; };
enum { sStep, oStep, uSet, uSame, NA };
const char* an[] = {"scheduler.step", "optimizer.step", "setLr(0.7)", "setLr(getLr)"};
void check(Ctx& c, W& w, const char* after) {
  double tol = 1e-5 * (w.n + 2);
  if (!sameD(w.o->getLr(), w.lr, tol, 1e-38)) c.fail(std::string(after) + ":lr", "learning rate %.9g, expected %.9g", w.o->getLr(), w.lr);
  if (w.s->getLastEpoch() != w.epoch) c.fail("epoch", "last epoch %ld, expected %ld", (long)w.s->getLastEpoch(), (long)w.epoch);
  if (!sameD(rawValues(w.p)[0], w.pv, 1e-4, 1e-5)) c.fail(std::string(after) + ":param", "parameter %.9g, expected %.9g", rawValues(w.p)[0], w.pv);
}
void optStep(W& w) {  // SGD with momentum 0.5, gradient 1
  w.o->step();
  w.mom = w.first ? 1 : 0.5 * w.mom + 1; w.first = false;
  w.pv -= w.lr * w.mom;
}
void schedStep(W& w, Ctx& c) {
  w.s->step(); w.epoch++; w.n++;
  if (w.epoch % w.size == 0) w.lr *= w.gamma;
  if (!sameD(w.s->getLastLr(), w.lr, 1e-5 * (w.n + 2), 1e-38)) c.fail("last-lr", "getLastLr %.9g, expected %.9g", w.s->getLastLr(), w.lr);
}
void init(Ctx& c, W& w, float lr, int64_t size, float gamma) {
  w.lr = w.base = lr; w.size = size; w.gamma = gamma; w.pv = 1;
  w.p = mk(Sh{1}, {1}, DType::Float32, true); w.p.setGrad(mk(Sh{1}, {1}));
  w.o = std::make_unique<SGD>(std::vector<TensorPtr>{&w.p}, lr, 0.5f);
  w.s = std::make_unique<lr_scheduler::StepLR>(*w.o, size, gamma);
  c.desc("lr %g, step size %ld, gamma %g: ", lr, (long)size, gamma);
  check(c, w, "construct");
  if (!sameD(w.s->getLastLr(), lr, 1e-6, 0)) c.fail("last-lr", "getLastLr %.9g before any step, expected %g", w.s->getLastLr(), lr);
}
void fHist(Ctx& c) {
  W w; init(c, w, 0.5f, c.pick({1, 2, 3, 4}), c.pick({0.1f, 0.5f, 2.f}));
  int d = c.thorough() ? 9 : 7;
  for (int s = 0; s < d; s++) {
    int a = c.pick(NA); c.desc("%s;", an[a]);
    switch (a) {
      case sStep: schedStep(w, c); break;
      case oStep: optStep(w); break;
      case uSet: w.o->setLr(0.7f); w.lr = 0.7f; break;
      case uSame: w.o->setLr(w.o->getLr()); break;
    }
    check(c, w, an[a]);
    c.transition(); c.state(mix(mix((uint64_t)(w.lr * 1e9), (uint64_t)w.epoch), (uint64_t)(w.pv * 1e6)));
  }
  if (w.n >= w.size) c.nontrivial();
  c.trace();
}
// naming the next epoch is the same as plain steps
void fEpochs(Ctx& c) {
  W w; init(c, w, 0.5f, c.pick({1, 2, 3, 4}), c.pick({0.1f, 2.f}));
  int d = c.thorough() ? 8 : 6;
  for (int s = 0; s < d; s++) {
    int a = c.pick(4);
    switch (a) {
      case 0: c.desc("scheduler.step;"); schedStep(w, c); break;
      case 1:
        c.desc("scheduler.step(%ld);", (long)w.epoch + 1);
        w.s->step(w.epoch + 1); w.epoch++; w.n++;
        if (w.epoch % w.size == 0) w.lr *= w.gamma;
        if (!sameD(w.s->getLastLr(), w.lr, 1e-5 * (w.n + 2), 1e-38)) c.fail("last-lr", "getLastLr %.9g, expected %.9g", w.s->getLastLr(), w.lr);
        break;
      case 2: c.desc("optimizer.step;"); optStep(w); break;
      case 3: c.desc("setLr(0.7);"); w.o->setLr(0.7f); w.lr = 0.7f; break;
    }
    check(c, w, "scheduler.step(epoch)");
    c.transition(); c.state(mix(mix((uint64_t)(w.lr * 1e9), (uint64_t)w.epoch), (uint64_t)(w.pv * 1e6)));
  }
  if (w.n >= w.size) c.nontrivial();
  c.trace();
}
void fLong(Ctx& c) {
  W w; int64_t size = 1 + c.pick(12);
  init(c, w, c.pick({1.f, 0.001f}), size, c.pick({0.1f, 0.5f, 0.9f, 1.f, 1.5f}));
  int n = c.thorough() ? 400 : 60; bool both = c.flip();
  c.desc("%d steps%s", n, both ? ", optimizer in between" : "");
  for (int k = 1; k <= n; k++) {
    if (both) optStep(w);
    schedStep(w, c);
    double want = w.base * std::pow(w.gamma, (double)(k / size));
    if (want < 1e-30 || want > 1e20) break;
    if (!sameD(w.lr, want, 1e-9 * (k + 1), 0)) c.fail("model", "model %.9g closed form %.9g", w.lr, want);
    if (both && w.pv > 1e6) both = false;
    check(c, w, "scheduler.step"); c.transition();
  }
  c.nontrivial(); c.trace();
}
// resuming: the scheduler of a run that is continued at a later epoch
void fResume(Ctx& c) {
  int64_t size = 1 + c.pick(4); float gamma = c.pick({0.1f, 0.5f}); int before = c.pick(6), after = c.pick(6);
  c.desc("step size %ld gamma %g: %d steps, new scheduler continuing, %d steps", (long)size, gamma, before, after);
  Tensor p = mk(Sh{1}, {1}, DType::Float32, true); SGD o(std::vector<TensorPtr>{&p}, 0.5f);
  {
    lr_scheduler::StepLR s(o, size, gamma);
    for (int k = 0; k < before; k++) s.step();
    if (s.getLastEpoch() != before) c.fail("epoch", "last epoch %ld after %d steps", (long)s.getLastEpoch(), before);
  }
  // the constructor takes the step into epoch lastEpoch+1
  lr_scheduler::StepLR s(o, size, gamma, before);
  for (int k = 0; k < after; k++) s.step();
  int64_t e = before + 1 + after;
  double want = 0.5 * std::pow((double)gamma, (double)(e / size));
  c.transition(); c.trace(); if (e >= size) c.nontrivial();
  if (s.getLastEpoch() != e) c.fail("resume-epoch", "last epoch %ld, expected %ld", (long)s.getLastEpoch(), (long)e);
  if (!sameD(o.getLr(), want, 1e-5, 0)) c.fail("resume", "learning rate %.9g, expected %.9g", o.getLr(), want);
}
// one scheduler per optimizer kind: parameters and state are left alone, the new rate is used from the next step
void fKinds(Ctx& c) {
  int k = c.pick(6), n = c.pick(4), size = 1 + c.pick(2);
  auto mkOpt = [&](Tensor& t) -> std::unique_ptr<Optimizer> {
    std::vector<TensorPtr> v{&t};
    switch (k) {
      case 0: return std::make_unique<SGD>(std::move(v), 0.5f, 0.9f);
      case 1: return std::make_unique<Adagrad>(std::move(v), 0.5f);
      case 2: return std::make_unique<RMSprop>(std::move(v), 0.5f);
      case 3: return std::make_unique<AdaDelta>(std::move(v), 0.5f);
      case 4: return std::make_unique<Adam>(std::move(v), 0.5f);
      default: return std::make_unique<AdamW>(std::move(v), 0.5f);
    }
  };
  // the same optimizer with the rate set by hand must agree exactly
  Tensor a = mk(Sh{2}, {1, -2}, DType::Float32, true), b = mk(Sh{2}, {1, -2}, DType::Float32, true);
  auto oa = mkOpt(a), ob = mkOpt(b);
  lr_scheduler::StepLR s(*oa, size, 0.5f);
  c.desc("optimizer kind %d, %d epochs, step size %d", k, n, size);
  float lr = 0.5f;
  for (int e = 1; e <= n; e++) {
    a.setGrad(mk(Sh{2}, {0.5 * e, -1})); b.setGrad(mk(Sh{2}, {0.5 * e, -1}));
    oa->step(); ob->step();
    auto va = rawValues(a);
    s.step();
    if (rawValues(a) != va) c.fail("touched", "a scheduler step changed a parameter");
    if (e % size == 0) lr *= 0.5f;
    ob->setLr(lr);
    if (oa->getLr() != lr) c.fail("lr", "rate %g, expected %g", oa->getLr(), lr);
    oa->step(); ob->step();
    if (rawValues(a) != rawValues(b)) c.fail("rate-used", "step after the schedule differs: %s vs %s", str(rawValues(a)).c_str(), str(rawValues(b)).c_str());
    c.transition();
  }
  if (n) c.nontrivial();
  c.trace();
}
struct Reg { Reg() {
  add("histories", "every history of 7 (9) actions over scheduler step, optimizer step and setting the rate, for step sizes 1-4 and 3 gammas", fHist, 2);
  add("epochs", "every history of 6 (8) actions over plain steps, steps naming the next epoch, optimizer steps and setting the rate", fEpochs, 2);
  add("long", "step sizes 1-12, 5 gammas, 2 initial rates: every epoch of a 60 (400) epoch run against the closed form", fLong, 2);
  add("resume", "every split of a run into two schedulers", fResume, 2);
  add("kinds", "every optimizer kind driven by the scheduler and by hand", fKinds, 2);
} } reg;
}  // namespace
