PROPERTY="T04"
EDITS=[("ink/types/uri.cc","""  constexpr absl::string_view kRegPossibleTrailingDelimeter = "/?#";""","""  constexpr absl::string_view kRegPossibleTrailingDelimeter = "/:?#";"""),
("ink/types/uri.cc","""  range = ParseAssetType(uri, position);
  if (!range.ok()) return range.status();
  absl::string_view""","""  if (uri.substr(position).substr(0, 2) == ":/") ++position;
  range = ParseAssetType(uri, position);
  if (!range.ok()) return range.status();
  absl::string_view""")]
NEEDS="a colon between the reg-name and the asset type"
BREAKS="a malformed URI is accepted"
DEMO='''
#include "ink/types/uri.h"
using namespace ink;
int main() { return Uri::Parse("//other:/texture:abc").ok() || !Uri::Parse("//other/texture:abc").ok() ? 1 : 0; }
'''
