PROPERTY="S08"
EDITS=[("ink/strokes/internal/stroke_outline.cc","""  if (index_storage_.UnusedLeftCapacity() < new_left_indices.size() ||
      index_storage_.UnusedRightCapacity() < new_right_indices.size()) {""","""  if (index_storage_.UnusedLeftCapacity() +
          index_storage_.UnusedRightCapacity() <
      2 * std::max(new_left_indices.size(), new_right_indices.size())) {""")]
NEEDS="a side that grows much longer than the other, so that its half is full while the other half has room"
BREAKS="indices are written outside the outline's storage"
FLAGS="-fsanitize=address -Wl,--allow-multiple-definition"
DEMO='''
#include "ink/strokes/internal/stroke_outline.h"
#include <vector>
using namespace ink::strokes_internal;
int main() {
  StrokeOutline o; std::vector<uint32_t> want;
  for (uint32_t i = 0; i < 40; ++i) { o.AppendNewIndices(absl::MakeSpan(&i, 1), {}); want.push_back(i); }
  uint32_t r[] = {100, 101}; o.AppendNewIndices({}, r); want.insert(want.begin(), {101, 100});
  auto s = o.GetIndices(); return std::vector<uint32_t>(s.begin(), s.end()) == want ? 0 : 1;
}
'''
