// Environment model of the third-party StrokeModeler: a deterministic smoothing filter that checks the documented calling protocol and records what it was given.
#pragma once
#include <vector>
#include "absl/status/status.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/types.h"
namespace ink { namespace stroke_model {
extern "C" void ai_assert(bool, const char*);
inline StrokeModelParams g_params; inline int g_resets = 0, g_updates = 0; inline Input g_input;   // last seen
inline int g_free = -1; inline Result g_result[4];   // g_free >= 0: the next updates return exactly these results
class StrokeModeler {
  struct S { bool down = false, up = false; int fed = 0; Vec2 at, before; };
  S now_, saved_; bool reset_ = false, has_saved_ = false;
 public:
  absl::Status Reset(const StrokeModelParams& p) { ++g_resets; g_params = p; now_ = S(); reset_ = true; has_saved_ = false; return absl::OkStatus(); }
  void Save() { saved_ = now_; has_saved_ = true; }
  void Restore() { ai_assert(has_saved_, "restore-follows-save"); now_ = saved_; }
  absl::Status Update(const Input& i, std::vector<Result>& out) {
    ++g_updates; g_input = i; ai_assert(reset_, "reset-before-first-input");
    if (i.event_type == Input::EventType::kDown) ai_assert(!now_.down && !now_.up, "down-only-first"); else ai_assert(now_.down && !now_.up, "move-and-up-only-after-down-and-before-up");
    now_.down = true; if (i.event_type == Input::EventType::kUp) now_.up = true;
    if (g_free >= 0) { for (int k = 0; k < g_free; ++k) out.push_back(g_result[k]); return absl::OkStatus(); }
    Result r; r.time = i.time; r.pressure = i.pressure; r.tilt = i.tilt; r.orientation = i.orientation; r.velocity = {now_.at.x, now_.before.x}; r.acceleration = {float(now_.fed), i.position.x};
    if (i.event_type == Input::EventType::kDown) { r.position = i.position; out.push_back(r); } else { r.position = {(now_.at.x + i.position.x) / 2, (now_.at.y + i.position.y) / 2}; out.push_back(r); if (i.event_type == Input::EventType::kUp) { r.position = i.position; out.push_back(r); } }
    ++now_.fed; now_.before = now_.at; now_.at = i.position; return absl::OkStatus();
  }
};
}}
