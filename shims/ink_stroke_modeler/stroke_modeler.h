#pragma once
#ifdef INK_RECORDING_MODELER
#include "specs/stub_modeler.h"
#else
#include <vector>
#include "absl/status/status.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/types.h"
namespace ink { namespace stroke_model {
// Stand-in: in analysis mode every observable result is unknown.
class StrokeModeler {
#ifdef INK_SA
  int s_ = 0;
 public:
  absl::Status Reset(const StrokeModelParams& p); absl::Status Update(const Input& i, std::vector<Result>& r); void Save(); void Restore();
#else
  Input last_{}, saved_{}; bool saved_ok_ = false;
 public:
  absl::Status Reset(const StrokeModelParams&) { return absl::OkStatus(); }
  absl::Status Update(const Input& i, std::vector<Result>& r) { Result o; o.position = i.position; o.time = i.time; o.pressure = i.pressure; o.tilt = i.tilt; o.orientation = i.orientation; r.push_back(o); last_ = i; return absl::OkStatus(); }
  void Save() { saved_ = last_; saved_ok_ = true; }
  void Restore() { if (saved_ok_) last_ = saved_; }
#endif
};
}}
#endif
