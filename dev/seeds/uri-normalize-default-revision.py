PROPERTY="T04"
EDITS=[("ink/types/uri.cc","""  if (!HasInkRegName()) {
    absl::StrAppend(&uri_string, "//", reg_name_);
  }""","""  if (!HasInkRegName() && reg_name_.substr(0, 3) != InkRegName()) {
    absl::StrAppend(&uri_string, "//", reg_name_);
  }""")]
NEEDS="a reg-name that starts with the ink one"
BREAKS="the normalised form of such a URI names another asset"
DEMO='''
#include "ink/types/uri.h"
using namespace ink;
int main() { Uri u = *Uri::Parse("//inkwell/texture:abc"); return Uri::Parse(u.ToNormalizedString()).value() == u ? 0 : 1; }
'''
