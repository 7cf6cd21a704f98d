PROPERTY='J01'
EDITS=[
('ink/jni/internal/jni_string_util.cc',
'JStringView::~JStringView() {\n  if (j_string_ != nullptr) {',
'JStringView::~JStringView() {\n  if (!string_view_.empty()) {')]
NEEDS='an empty Java string read as a view'
BREAKS='the reference to, and the characters of, an empty string are never released'
DEMO='''
#include <jni.h>
#include "ink/jni/internal/jni_string_util.h"
int main() { JNIEnv env; { ink::jni::JStringView a(&env, env.NewStringUTF("")), b(&env, env.NewStringUTF("x")), c(&env, nullptr); if (!a.string_view().empty() || b.string_view() != "x" || !c.string_view().empty()) return 1; } return env.globals == 0 && env.chars == 0 ? 0 : 1; }
'''
