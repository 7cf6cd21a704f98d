PROPERTY="B01"
EDITS=[("ink/brush/brush.cc","""absl::Status Brush::SetEpsilon(float epsilon) {
  absl::Status status = ValidateBrushEpsilon(epsilon);
  if (!status.ok()) {
    return status;
  }
  if (status = ValidateBrushSizeRelativeToEpsilon(size_, epsilon);
      !status.ok()) {
    return status;
  }
  epsilon_ = epsilon;
  return absl::OkStatus();""","""absl::Status Brush::SetEpsilon(float epsilon) {
  absl::Status status = ValidateBrushEpsilon(epsilon);
  if (status.ok()) std::swap(epsilon, epsilon_);
  if (status.ok()) {
    status = ValidateBrushSizeRelativeToEpsilon(size_, epsilon_);
  }
  if (!status.ok() && epsilon > epsilon_) epsilon_ = epsilon;
  return status;""")]
NEEDS="an epsilon larger than the size given to the setter"
BREAKS="a rejected epsilon stays in the brush"
DEMO='''
#include "ink/brush/brush.h"
using namespace ink;
int main() {
  Brush b = *Brush::Create(BrushFamily(), Color::Black(), 10, 0.5);
  return !b.SetEpsilon(20).ok() && b.GetEpsilon() == 0.5f && b.SetEpsilon(2).ok() && b.GetEpsilon() == 2 ? 0 : 1;
}
'''
